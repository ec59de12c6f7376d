SPECIFICATION Spec
CONSTANT Parts = {{"head", "colour"}, {"colour", "size"}, {"size"}, {"tiles"}, {"tail"}, {"seg"}, {"feat"}, {"refs", "tiles"}, {"refs", "colour"}}
INVARIANTS Law Cut Show
CHECK_DEADLOCK FALSE
