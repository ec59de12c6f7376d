SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Layouts = {"VA", "AV", "AA", "VM", "VAA"}
 Accs = {0, 1}
 MaxDs = {0, 2}
 MaxSs = {0, 20}
 Emit_ = 0
INVARIANTS Emitted AllConserved AllInOrder AllRepresentable AllKeyFrameCuts AllCuesLead AllDurationsClosed NothingHeld OneCue ClusterTimes
