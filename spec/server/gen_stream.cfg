SPECIFICATION Spec
CONSTANTS
  Conns = {1,2}
  Ids = {1,2}
  Kinds = {"open","cancel"}
  MaxReq = 3
  MaxEmit = 2
  MaxEnv = 8
  AllowDisc = TRUE
  AllowUnproxy = FALSE
  AllowDropMap = FALSE
  AllowBadItem = FALSE
  Scheduled = TRUE
VIEW view
INVARIANTS NoViolation SubsOwn Reachable OwnFrames QueueOrder CountOK
ACTION_CONSTRAINT Emitted
CONSTRAINT Canon
CHECK_DEADLOCK FALSE
