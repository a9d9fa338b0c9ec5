SPECIFICATION GenSpec
CONSTANTS
  Cfgs <- CfgsB
  MaxTx = 3
  Paths = {"p","q"}
  Auths = {""}
  Horizon = 7
  Steps = {1,3}
  Kinds = {"ok"}
  MaxLen = 24
  EmitAll = FALSE

ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
