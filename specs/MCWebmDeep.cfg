SPECIFICATION Spec
CONSTANT MaxTok = 3
INVARIANTS Nested Closed Within Exact Tiled
