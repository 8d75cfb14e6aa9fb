#define GROUP_LIST(X)                                                              \
  VT_ALL(X, And, G_ANY) VT_ALL(X, AndNot, G_ANY) VT_ALL(X, Or, G_ANY) VT_ALL(X, Xor, G_ANY) \
  VT_ALL(X, Not, G_ANY) VT_UI(X, LogicOperators, G_ANY)                            \
  VT_ALL(X, Xor3, G_ANY) VT_ALL(X, Or3, G_ANY) VT_ALL(X, OrAnd, G_ANY)             \
  VT_ALL(X, BitwiseIfThenElse, G_ANY) VT_ALL(X, MaskedOr, G_ANY)                   \
  VT_U(X, PopulationCount, G_ANY) VT_UI(X, LeadingZeroCount, G_ANY) VT_UI(X, TrailingZeroCount, G_ANY) \
  VT_UI(X, MaskedLeadingZeroCount, G_ANY) VT_UI(X, HighestSetBitIndex, G_ANY)      \
  VT_UI(X, AllBits, G_XL) VT_ALLS(X, SignBit, G_XL) VT_SPECIAL(X, NegBits, G_ANY)                                                          \
  VT_F(X, CopySign, G_ANY) VT_F(X, CopySignToAbs, G_ANY) VT_I(X, BroadcastSignBit, G_ANY) \
  VT_IF(X, ZeroIfNegative, G_ANY) VT_IF(X, IfNegativeThenElse, G_ANY)              \
  VT_IF(X, IfNegativeThenElseZero, G_ANY) VT_IF(X, IfNegativeThenZeroElse, G_ANY)  \
  VT_IF(X, IfNegativeThenNegOrUndefIfZero, G_ANY)                                  \
  VT_UI(X, ShiftLeft, G_XL) VT_UI(X, ShiftRight, G_XL) VT_UI(X, RoundingShiftRight, G_XL) \
  VT_UI(X, RotateLeft, G_XL) VT_UI(X, RotateRight, G_XL)                           \
  VT_UI(X, SameShifts, G_SHIFT) VT_UI(X, RotateSame, G_SHIFT) VT_UI(X, SameShiftsConst, G_XL)                                  \
  VT_UI(X, Shl, G_SHIFT) VT_UI(X, Shr, G_SHIFT) VT_UI(X, RoundingShr, G_SHIFT)     \
  VT_UI(X, Rol, G_SHIFT) VT_UI(X, Ror, G_SHIFT) VT_UI(X, ShiftOperators, G_SHIFT)  \
  X(MultiRotateRight, u64, G_B64) X(MultiRotateRight, i64, G_B64)                  \
  X(BitShuffle, u64, G_B64) X(BitShuffle, i64, G_B64)                              \
  VT_UI(X, MaskedShiftLeft, G_XL) VT_UI(X, MaskedShiftRight, G_XL) VT_UI(X, MaskedShiftRightOr, G_XL) \
  VT_UI(X, MaskedShrOr, G_SHIFT)                                                   \
  VT_UI(X, ReverseBits, G_ANY) VT_UI16_32_64(X, ReverseLaneBytes, G_ANY)
