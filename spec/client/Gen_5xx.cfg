SPECIFICATION GenSpec
CONSTANTS
  Cfgs <- CfgsAll
  MaxTx = 1
  Paths = {"p"}
  Auths = {""}
  Horizon = 10
  Steps = {1}
  Kinds = {"500","ok"}
  MaxLen = 30
  EmitAll = TRUE
VIEW GenView
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
