SPECIFICATION Spec
INVARIANT Unique
INVARIANT Range
INVARIANT Requested
CONSTANT Depth = 4
CONSTANT Reqs = {0, 1, 2, 3, 126, 127}
