#define SRC_u16(X, N) X(N, u8, G_ANY)
#define SRC_i16(X, N) SRC_u16(X, N) X(N, i8, G_ANY)
#define SRC_u32(X, N) SRC_u16(X, N) X(N, u16, G_ANY)
#define SRC_i32(X, N) SRC_i16(X, N) X(N, u16, G_ANY) X(N, i16, G_ANY)
#define SRC_u64(X, N) SRC_u32(X, N) X(N, u32, G_ANY) X(N, f32, G_ANY)
#define SRC_i64(X, N) SRC_i32(X, N) X(N, u32, G_ANY) X(N, i32, G_ANY) X(N, f32, G_ANY)
#define SRC_f32(X, N) X(N, f16, G_ANY) X(N, bf16, G_ANY)
#define SRC_f64(X, N) X(N, f32, G_ANY) X(N, i32, G_ANY) X(N, u32, G_ANY)
#define WID_u16(X, N) X(N, u8, G_ANY)
#define WID_i16(X, N) X(N, u8, G_ANY) X(N, i8, G_ANY)
#define WID_u32(X, N) X(N, u16, G_ANY)
#define WID_i32(X, N) X(N, u16, G_ANY) X(N, i16, G_ANY)
#define WID_u64(X, N) X(N, u32, G_ANY) X(N, f32, G_ANY)
#define WID_i64(X, N) X(N, u32, G_ANY) X(N, i32, G_ANY) X(N, f32, G_ANY)
#define N64(X, N) X(N, u64, G_ANY) X(N, i64, G_ANY)
#define N32(X, N) N64(X, N) X(N, u32, G_ANY) X(N, i32, G_ANY)
#define N16(X, N) N32(X, N) X(N, u16, G_ANY) X(N, i16, G_ANY)
#define D2_8(X, N) X(N, u16, G_ANY) X(N, i16, G_ANY)
#define D2_16(X, N) X(N, u32, G_ANY) X(N, i32, G_ANY)
#define GROUP_LIST(X)                                                              \
  SRC_u16(X, Promote_u16) SRC_i16(X, Promote_i16) SRC_u32(X, Promote_u32) SRC_i32(X, Promote_i32) SRC_u64(X, Promote_u64) SRC_i64(X, Promote_i64) \
  SRC_f32(X, Promote_f32) SRC_f64(X, Promote_f64) X(Promote_f64, f16, G_ANY)       \
  WID_u16(X, PromoteHalf_u16) WID_i16(X, PromoteHalf_i16) WID_u32(X, PromoteHalf_u32) WID_i32(X, PromoteHalf_i32) WID_u64(X, PromoteHalf_u64) WID_i64(X, PromoteHalf_i64) \
  SRC_f32(X, PromoteHalf_f32) SRC_f64(X, PromoteHalf_f64)                          \
  X(PromoteInRange_u64, f32, G_ANY) X(PromoteInRange_i64, f32, G_ANY)              \
  N16(X, Demote_u8) N16(X, Demote_i8) N32(X, Demote_u16) N32(X, Demote_i16) N64(X, Demote_u32) N64(X, Demote_i32) \
  X(Demote_i32, f64, G_ANY) X(Demote_u32, f64, G_ANY) X(DemoteInRange_i32, f64, G_ANY) X(DemoteInRange_u32, f64, G_ANY) \
  N64(X, Demote_f32) X(Demote_f32, f64, G_ANY) X(Demote_f16, f32, G_ANY) X(Demote_f16, f64, G_ANY) X(Demote_bf16, f32, G_ANY) \
  X(DemoteToNearestInt, f64, G_ANY)                                                \
  X(Truncate_u8, u16, G_ANY) X(Truncate_u8, u32, G_ANY) X(Truncate_u8, u64, G_ANY) X(Truncate_u16, u32, G_ANY) X(Truncate_u16, u64, G_ANY) X(Truncate_u32, u64, G_ANY) \
  X(U8FromU32, u32, G_BYTE)                                                        \
  X(Convert_f32, i32, G_ANY) X(Convert_f32, u32, G_ANY) X(Convert_f64, i64, G_ANY) X(Convert_f64, u64, G_ANY) \
  X(Convert_i32, f32, G_ANY) X(Convert_u32, f32, G_ANY) X(Convert_i64, f64, G_ANY) X(Convert_u64, f64, G_ANY) \
  X(ConvertInRange_i32, f32, G_ANY) X(ConvertInRange_u32, f32, G_ANY) X(ConvertInRange_i64, f64, G_ANY) X(ConvertInRange_u64, f64, G_ANY) \
  VT_F(X, NearestInt, G_ANY) VT_F(X, CeilInt, G_ANY) VT_F(X, FloorInt, G_ANY)      \
  X(ConstConvert_i32, f32, G_XL) X(ConstConvert_u32, f32, G_XL) X(ConstConvert_i64, f64, G_XL) X(ConstConvert_u64, f64, G_XL) \
  X(ConstPromote_i64, f32, G_XL) X(ConstPromote_u64, f32, G_XL) X(ConstDemote_i32, f64, G_XL) X(ConstDemote_u32, f64, G_XL) \
  VT_F(X, ConstNearest, G_XL) X(ConstDemoteNearest, f64, G_XL) VT_F(X, ConstRound, G_XL) \
  D2_8(X, Demote2_u8) D2_8(X, Demote2_i8) D2_16(X, Demote2_u16) D2_16(X, Demote2_i16) N64(X, Demote2_u32) N64(X, Demote2_i32) X(Demote2_bf16, f32, G_ANY) \
  X(Truncate2_u8, u16, G_ANY) X(Truncate2_u16, u32, G_ANY) X(Truncate2_u32, u64, G_ANY)
