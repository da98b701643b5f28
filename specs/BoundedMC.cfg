INIT Init
NEXT Next
CONSTANT N = 6
INVARIANTS Contained Copied SourceKept Component TrailingFree PrefixFree LenBounded
CHECK_DEADLOCK FALSE
