SPECIFICATION GenSpec
CONSTANTS
  Cfgs <- CfgsA
  MaxTx = 2
  Paths = {"p"}
  Auths = {""}
  Horizon = 4
  Steps = {1}
  Kinds = {"ok"}
  MaxLen = 30
  EmitAll = TRUE
VIEW GenView
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
