SPECIFICATION Spec
CONSTANTS
 Depth = 3
 Layouts = {"VA", "A", "AA"}
 Accs = {0, 1}
 MaxDs = {0, 2}
 MaxSs = {0}
 Emit_ = 1
INVARIANTS Emitted AllConserved AllInOrder AllRepresentable AllKeyFrameCuts AllCuesLead AllDurationsClosed NothingHeld OneCue ClusterTimes
