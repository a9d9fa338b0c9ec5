SPECIFICATION GenSpec
CONSTANTS
  Cfgs <- CfgsAll
  MaxTx = 1
  Paths = {"p"}
  Auths = {""}
  Horizon = 4
  Steps = {1}
  Kinds = {"ok", "okmap", "noaddr", "ucr", "300", "400", "500", "600", "req", "junk"}
  MaxLen = 30
  EmitAll = TRUE
VIEW GenView
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
