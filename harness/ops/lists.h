// Op lists: X(NAME, TYPE, GEN). Each list is expanded both in the per-target TUs
// (vector side) and in the reference TU (scalar side).
#define VT_U(X, N, G) X(N, u8, G) X(N, u16, G) X(N, u32, G) X(N, u64, G)
#define VT_I(X, N, G) X(N, i8, G) X(N, i16, G) X(N, i32, G) X(N, i64, G)
#define VT_F(X, N, G) X(N, f32, G) X(N, f64, G)
#define VT_UI(X, N, G) VT_U(X, N, G) VT_I(X, N, G)
#define VT_IF(X, N, G) VT_I(X, N, G) VT_F(X, N, G)
#define VT_ALL(X, N, G) VT_UI(X, N, G) VT_F(X, N, G)
#define VT_UI8_16(X, N, G) X(N, u8, G) X(N, u16, G) X(N, i8, G) X(N, i16, G)
#define VT_UI16_32_64(X, N, G) X(N, u16, G) X(N, u32, G) X(N, u64, G) X(N, i16, G) X(N, i32, G) X(N, i64, G)
#define VT_UI8_16_32(X, N, G) VT_UI8_16(X, N, G) X(N, u32, G) X(N, i32, G)
#define VT_3264(X, N, G) X(N, u32, G) X(N, i32, G) X(N, u64, G) X(N, i64, G) VT_F(X, N, G)
#define VT_SPECIAL(X, N, G) X(N, f16, G) X(N, bf16, G)
#define VT_ALLS(X, N, G) VT_ALL(X, N, G) VT_SPECIAL(X, N, G)
