#define GROUP_LIST(X)                                                              \
  VT_ALLS(X, Load, 0) VT_ALLS(X, LoadU, 0) VT_ALLS(X, LoadDup128, 0) VT_ALLS(X, InsertIntoUpper, 0) \
  VT_ALL(X, MaskedLoad, 0) VT_ALL(X, MaskedLoadOr, 0) VT_SPECIAL(X, MaskedLoad, 0) VT_ALLS(X, LoadN, 0) VT_ALLS(X, LoadNOr, 0) \
  VT_ALLS(X, Store, 0) VT_ALLS(X, StoreU, 0) VT_ALLS(X, Stream, 0) VT_ALLS(X, BlendedStore, 0) \
  VT_ALLS(X, StoreN, 0) VT_ALLS(X, LoadNConst, 0) VT_ALLS(X, LoadNOrConst, 0) VT_ALLS(X, StoreNConst, 0) VT_ALL(X, SafeFillN, 0) VT_ALLS(X, SafeCopyN, 0)           \
  VT_U(X, TruncateStore1, 0) VT_U(X, TruncateStore2, 0) VT_U(X, TruncateStore4, 0) \
  VT_ALLS(X, LoadInterleaved2, 0) VT_ALLS(X, LoadInterleaved3, 0) VT_ALLS(X, LoadInterleaved4, 0) \
  VT_ALLS(X, StoreInterleaved2, 0) VT_ALLS(X, StoreInterleaved3, 0) VT_ALLS(X, StoreInterleaved4, 0) \
  VT_3264(X, GatherOffset, 0) VT_3264(X, GatherIndex, 0) VT_3264(X, GatherIndexN, 0) VT_3264(X, GatherIndexNOr, 0) \
  VT_3264(X, MaskedGatherIndex, 0) VT_3264(X, MaskedGatherIndexOr, 0)              \
  VT_3264(X, ScatterOffset, 0) VT_3264(X, ScatterIndex, 0) VT_3264(X, ScatterIndexN, 0) VT_3264(X, MaskedScatterIndex, 0) \
  VT_ALLS(X, CompressStore, 0) VT_ALLS(X, CompressBlendedStore, 0) VT_ALLS(X, CompressBitsStore, 0) VT_ALLS(X, LoadExpand, 0) \
  VT_ALL(X, LoadMaskBits, 0) VT_ALL(X, StoreMaskBits, 0) VT_UI(X, CacheControl, 0)
