SPECIFICATION Spec
CONSTANTS
  Conns = {1,2}
  Ids = {1}
  Kinds = {"call","gcall","open","cancel","bad"}
  MaxReq = 2
  MaxEmit = 1
  MaxEnv = 7
  AllowDisc = TRUE
  AllowUnproxy = TRUE
  AllowDropMap = FALSE
  AllowBadItem = TRUE
  Scheduled = FALSE
VIEW view
INVARIANTS NoViolation SubsOwn Reachable OwnFrames QueueOrder CountOK
CHECK_DEADLOCK FALSE
