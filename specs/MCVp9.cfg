SPECIFICATION Spec
CONSTANT Parts = {{"head"}, {"colour"}, {"size"}, {"tiles"}, {"tail"}, {"seg"}, {"feat"}, {"refs"}}
INVARIANTS Law Cut Show
CHECK_DEADLOCK FALSE
