#define GROUP_LIST(X)                                                              \
  VT_UI(X, TableLookupBytes, G_BIDX) VT_UI(X, TableLookupBytesOr0, G_BIDX0) VT_UI(X, ScTable, G_BIDX) VT_UI(X, ScTableOr0, G_BIDX0)        \
  X(TableLookupBytesMix, u8, G_BIDX) X(TableLookupBytesSizes, u8, G_BIDX0)                                               \
  VT_ALL(X, TableLookupLanes, G_IDX) VT_ALL(X, TwoTablesLookupLanes, G_IDX2)     \
  VT_ALL(X, Per4LaneBlockShuffle, G_XL)                                            \
  VT_ALL(X, SlideUpLanes, G_XL) VT_ALL(X, SlideDownLanes, G_XL) VT_ALL(X, SlideConst, G_XL) VT_ALL(X, Slide1, G_XL) VT_ALL(X, SlideBlocks, G_XL) \
  VT_ALLS(X, Compress, G_XL) VT_ALLS(X, CompressNot, G_XL) X(CompressBlocksNot, u64, G_PAIRMASK) \
  VT_ALLS(X, CompressStore, G_XL) VT_ALLS(X, CompressBlendedStore, G_XL)           \
  VT_ALL(X, CompressBits, G_XL) VT_ALLS(X, CompressBitsStore, G_XL)                \
  VT_ALLS(X, Expand, G_XL) VT_ALLS(X, LoadExpand, G_XL)
