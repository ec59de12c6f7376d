SPECIFICATION Spec
CONSTANTS MaxA = 2
INVARIANTS SectionsKept BlocksTold LastCounts AllMeansAll
CHECK_DEADLOCK FALSE
