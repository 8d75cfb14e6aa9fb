#define GROUP_LIST(X)                                                              \
  VT_ALL(X, Add, G_ANY) VT_ALL(X, Sub, G_ANY) VT_ALL(X, Mul, G_ANY)                \
  VT_ALL(X, Operators, G_ANY)                                                      \
  VT_ALL(X, Min, G_ANY) VT_ALL(X, Max, G_ANY)                                      \
  VT_ALL(X, MinMagnitude, G_ANY) VT_ALL(X, MaxMagnitude, G_ANY)                    \
  VT_ALL(X, AbsDiff, G_ANY) VT_ALL(X, Clamp, G_ANY)                                \
  VT_ALL(X, AddSub, G_XL)                                                          \
  VT_IF(X, Neg, G_ANY) VT_IF(X, Abs, G_ANY)                                        \
  VT_I(X, SaturatedNeg, G_ANY) VT_I(X, SaturatedAbs, G_ANY)                        \
  VT_UI(X, SaturatedAdd, G_ANY) VT_UI(X, SaturatedSub, G_ANY)                      \
  VT_UI(X, AverageRound, G_ANY)                                                    \
  VT_UI(X, MulHigh, G_ANY) X(MulFixedPoint15, i16, G_ANY)                          \
  VT_UI(X, MulEven, G_XL) VT_UI(X, MulOdd, G_XL)                                   \
  VT_ALL(X, Div, G_ANY) VT_UI(X, Mod, G_ANY)                                       \
  VT_ALL(X, MulAdd, G_ANY) VT_ALL(X, NegMulAdd, G_ANY)                             \
  VT_ALL(X, MulAddSub, G_XL) VT_ALL(X, MulSubAdd, G_XL)                            \
  VT_F(X, MulSub, G_ANY) VT_F(X, NegMulSub, G_ANY)                                 \
  VT_F(X, Sqrt, G_ANY) VT_F(X, ApproximateReciprocal, G_ANY)                       \
  VT_F(X, ApproximateReciprocalSqrt, G_ANY)                                        \
  VT_F(X, GetExponent, G_ANY) VT_F(X, GetBiasedExponent, G_ANY)                    \
  VT_F(X, Round, G_ANY) VT_F(X, Trunc, G_ANY) VT_F(X, Ceil, G_ANY) VT_F(X, Floor, G_ANY) \
  VT_F(X, MulRound, G_ANY) VT_F(X, MulByPow2, G_POW2) VT_F(X, MulByFloorPow2, G_ANY) \
  VT_IF(X, ComplexConj, G_XL)                                                      \
  VT_ALL(X, MulComplex, G_FMOD) VT_ALL(X, MulComplexConj, G_FMOD)                  \
  VT_ALL(X, MulComplexAdd, G_FMOD) VT_ALL(X, MulComplexConjAdd, G_FMOD)            \
  VT_ALL(X, MaskedMulComplexConjAdd, G_FMOD) VT_ALL(X, MaskedMulComplexConj, G_FMOD) \
  VT_ALL(X, MaskedMulComplexOr, G_FMOD)                                            \
  VT_ALL(X, MaskedMinOr, G_ANY) VT_ALL(X, MaskedMaxOr, G_ANY)                      \
  VT_ALL(X, MaskedAddOr, G_ANY) VT_ALL(X, MaskedSubOr, G_ANY) VT_ALL(X, MaskedMulOr, G_ANY) \
  VT_ALL(X, MaskedDivOr, G_ANY) VT_UI(X, MaskedModOr, G_ANY)                       \
  VT_UI8_16(X, MaskedSatAddOr, G_ANY) VT_UI8_16(X, MaskedSatSubOr, G_ANY)            \
  VT_ALL(X, MaskedMulAddOr, G_ANY) VT_I(X, MaskedAbsOr, G_ANY) VT_I(X, MaskedAbs, G_ANY) \
  VT_F(X, MaskedSqrtOr, G_ANY) VT_F(X, MaskedSqrt, G_ANY)                          \
  VT_ALL(X, MaskedMax, G_ANY) VT_ALL(X, MaskedAdd, G_ANY) VT_ALL(X, MaskedSub, G_ANY) \
  VT_ALL(X, MaskedMul, G_ANY) VT_F(X, MaskedDiv, G_ANY)                          \
  VT_UI8_16(X, MaskedSaturatedAdd, G_ANY) VT_UI8_16(X, MaskedSaturatedSub, G_ANY)    \
  X(MaskedMulFixedPoint15, i16, G_ANY)                                             \
  VT_ALL(X, MaskedMulAdd, G_ANY) VT_ALL(X, MaskedNegMulAdd, G_ANY)                 \
  VT_F(X, MaskedApproximateReciprocal, G_ANY) VT_F(X, MaskedApproximateReciprocalSqrt, G_ANY) \
  VT_ALL(X, AddConst, G_ANY)
