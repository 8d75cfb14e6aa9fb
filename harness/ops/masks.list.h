#define GROUP_LIST(X)                                                              \
  VT_ALL(X, Eq, G_ANY) VT_ALL(X, Ne, G_ANY) VT_ALL(X, Lt, G_ANY) VT_ALL(X, Gt, G_ANY) VT_ALL(X, Le, G_ANY) VT_ALL(X, Ge, G_ANY) \
  VT_ALL(X, CmpOperators, G_ANY) VT_IF(X, IsNegative, G_ANY) VT_UI(X, TestBit, G_BIT) \
  VT_F(X, IsNaN, G_ANY) VT_F(X, IsEitherNaN, G_ANY) VT_F(X, IsInf, G_ANY) VT_F(X, IsFinite, G_ANY) VT_F(X, MaskedIsNaN, G_ANY) \
  VT_ALL(X, MaskedEq, G_ANY) VT_ALL(X, MaskedNe, G_ANY) VT_ALL(X, MaskedLt, G_ANY) VT_ALL(X, MaskedGt, G_ANY) VT_ALL(X, MaskedLe, G_ANY) VT_ALL(X, MaskedGe, G_ANY) \
  X(Cmp128, u64, G_KEY128) X(MinMax128, u64, G_KEY128)                            \
  VT_ALLS(X, FirstN, G_XL) VT_ALLS(X, FirstNConst, G_XL) VT_ALLS(X, MaskedSets, G_XL) VT_ALL(X, MaskFromVec, G_XL) VT_ALL(X, VecFromMask, G_XL)         \
  VT_ALL(X, LoadMaskBits, G_XL) VT_ALLS(X, StoreMaskBits, G_XL) VT_ALL(X, BitsFromMask, G_XL)  \
  VT_ALL(X, Dup128MaskFromMaskBits, G_XL) VT_ALL(X, MaskFalse, G_XL) VT_3264(X, RebindMask, G_XL) \
  VT_ALL(X, PromoteMaskTo, G_XL) VT_ALL(X, PromoteMaskTo4, G_XL) VT_ALL(X, PromoteMaskTo8, G_XL) \
  VT_ALL(X, DemoteMaskTo, G_XL) VT_ALL(X, DemoteMaskTo4, G_XL) VT_ALL(X, DemoteMaskTo8, G_XL)  \
  VT_ALL(X, OrderedDemote2MasksTo, G_XL)                                           \
  VT_ALL(X, LowerHalfOfMask, G_XL) VT_ALL(X, UpperHalfOfMask, G_XL) VT_ALL(X, CombineMasks, G_XL) \
  VT_ALL(X, SlideMaskUpLanes, G_XL) VT_ALL(X, SlideMaskDownLanes, G_XL) VT_ALL(X, SlideMask1, G_XL) \
  VT_ALL(X, TestMask, G_XL) VT_ALLS(X, IfThenElse, G_ANY) VT_ALLS(X, IfThenElseZero, G_ANY) VT_ALLS(X, IfThenZeroElse, G_ANY) \
  VT_ALL(X, IfVecThenElse, G_ANY) VT_ALL(X, MaskLogic, G_XL) VT_ALL(X, ExclusiveNeither, G_EXCL) \
  VT_ALL(X, SetFirst, G_XL)
