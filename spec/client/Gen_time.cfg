SPECIFICATION GenSpec
CONSTANTS
  Cfgs <- CfgsAll
  MaxTx = 2
  Paths = {"p"}
  Auths = {""}
  Horizon = 7
  Steps = {1}
  Kinds = {}
  MaxLen = 30
  EmitAll = TRUE
VIEW GenView
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
