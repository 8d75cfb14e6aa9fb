#define GROUP_LIST(X)                                                              \
  VT_ALLS(X, LowerHalf, G_XL) VT_ALLS(X, UpperHalf, G_XL) VT_ALLS(X, ZeroExtendVector, G_XL) VT_ALLS(X, Combine, G_XL) \
  VT_ALL(X, Concats, G_XL) VT_ALLS(X, ConcatOddEven, G_XL)                         \
  VT_ALL(X, InterleaveWhole, G_XL) VT_ALLS(X, InterleaveLower, G_XL) VT_ALLS(X, InterleaveUpper, G_XL) \
  VT_ALL(X, InterleaveEven, G_XL) VT_ALL(X, InterleaveOdd, G_XL) VT_UI8_16_32(X, Zip, G_XL) \
  VT_ALL(X, Broadcast, G_XL) VT_UI(X, ShiftLeftBytes, G_XL) VT_UI(X, ShiftRightBytes, G_XL) \
  VT_ALL(X, ShiftLanes, G_XL) VT_UI(X, CombineShiftRightBytes, G_XL) VT_ALL(X, CombineShiftRightLanes, G_XL) \
  VT_ALL(X, OddEven, G_XL) VT_ALL(X, DupEven, G_XL) VT_ALL(X, DupOdd, G_XL)        \
  X(Shuffle32, u32, G_XL) X(Shuffle32, i32, G_XL) X(Shuffle32, f32, G_XL) X(Shuffle01, u64, G_XL) X(Shuffle01, i64, G_XL) X(Shuffle01, f64, G_XL) \
  VT_ALLS(X, Reverse, G_XL) VT_ALL(X, ReverseBlocks, G_XL) VT_ALLS(X, Reverse2, G_XL) VT_ALL(X, Reverse4, G_XL) VT_ALL(X, Reverse8, G_XL) \
  VT_ALL(X, OddEvenBlocks, G_XL) VT_ALL(X, SwapAdjacentBlocks, G_XL) VT_ALL(X, InterleaveBlocks, G_XL) \
  VT_ALL(X, BroadcastBlock, G_XL) VT_ALL(X, BroadcastLane, G_XL) VT_ALLS(X, LaneAccess, G_XL) VT_ALL(X, Init, G_XL) \
  VT_ALLS(X, LaneConst, G_XL) VT_ALLS(X, BlockAccess, G_XL) VT_ALLS(X, Tuples, G_XL) VT_SPECIAL(X, Init16, G_XL) \
  VT_ALL(X, BitCastResize, G_XL) VT_ALL(X, ResizeAny, G_XL) \
  VT_UI8_16_32(X, ScZip, G_XL) VT_ALLS(X, ScPass, G_XL) VT_ALL(X, ScResize, G_XL)
