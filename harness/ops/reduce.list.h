#define GROUP_LIST(X)                                                              \
  VT_UI(X, SumLanes, G_XL) VT_F(X, SumLanes, G_SMALL) VT_F(X, SumLanesF, G_FMOD)   \
  VT_UI(X, MinMaxLanes, G_XL) VT_F(X, MinMaxLanes, G_FMOD)                         \
  VT_UI(X, MaskedReduce, G_XL) VT_F(X, MaskedReduce, G_SMALL)                      \
  VT_UI(X, PairwiseAdd, G_XL) VT_F(X, PairwiseAdd, G_FMOD)                         \
  VT_UI(X, PairwiseSub, G_XL) VT_F(X, PairwiseSub, G_FMOD)                         \
  VT_UI(X, PairwiseAdd128, G_XL) VT_F(X, PairwiseAdd128, G_FMOD)                   \
  VT_UI(X, PairwiseSub128, G_XL) VT_F(X, PairwiseSub128, G_FMOD)                   \
  VT_UI8_16_32(X, SumsOf2, G_XL) X(SumsOf2, f32, G_FMOD)                           \
  VT_UI8_16(X, SumsOf4, G_XL) X(SumsOf8, u8, G_XL) X(SumsOf8, i8, G_XL)            \
  X(SumsOf8AbsDiff, u8, G_XL) X(SumsOf8AbsDiff, i8, G_XL)                          \
  X(SumsOfAdjQuadAbsDiff, u8, G_XL) X(SumsOfAdjQuadAbsDiff, i8, G_XL)              \
  X(SumsOfShuffledQuadAbsDiff, u8, G_XL) X(SumsOfShuffledQuadAbsDiff, i8, G_XL)    \
  X(WidenMulPairwiseAdd, i16, G_XL) X(WidenMulPairwiseAdd, u16, G_XL) X(WidenMulPairwiseAdd, bf16, G_SMALL) \
  X(WidenMulPairwiseAddF, bf16, G_FMOD)                                            \
  X(SatWidenMulPairwiseAdd, i8, G_XL) X(SatWidenMulPairwiseAccumulate, i16, G_XL)  \
  X(SatWidenMulAccumFixedPoint, i16, G_XL)                                         \
  X(ReorderWidenMulAccumulate, i16, G_XL) X(ReorderWidenMulAccumulate, u16, G_XL) X(ReorderWidenMulAccumulate, bf16, G_SMALL) \
  X(SumOfMulQuad, i8, G_XL) X(SumOfMulQuad, u8, G_XL) X(SumOfMulQuad, i16, G_XL) X(SumOfMulQuad, u16, G_XL) X(SumOfMulQuadUI, i8, G_XL) \
  VT_UI8_16_32(X, WidenMulAccumulate, G_XL)                                        \
  X(MulEvenOddAdd, bf16, G_SMALL)                                                  \
  X(AES, u8, G_XL) X(CLMul, u64, G_XL) \
  X(ScProducts, i16, G_XL) X(ScProducts, bf16, G_SMALL) X(ScReorder, i16, G_XL) X(ScReorder, u16, G_XL) X(ScReorder, bf16, G_SMALL) \
  X(ScSatProduct, i8, G_XL) X(ScSums8, u8, G_XL) X(ScSums8, i8, G_XL) VT_UI8_16_32(X, ScSums2, G_XL)
