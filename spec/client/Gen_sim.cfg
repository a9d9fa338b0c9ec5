SPECIFICATION GenSpec
CONSTANTS
  Cfgs <- CfgsAll
  MaxTx = 4
  Paths = {"p","q"}
  Auths = {"","A"}
  Horizon = 60
  Steps = {1,2,5}
  Kinds = {"ok", "okmap", "noaddr", "ucr", "300", "400", "500", "600", "req", "junk"}
  MaxLen = 40
  EmitAll = FALSE

ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
