SPECIFICATION Spec
CONSTANT MaxTok = 2
INVARIANTS Nested Closed Within Exact Tiled
