SPECIFICATION GenSpec
CONSTANTS
  Cfgs <- CfgsAuth
  MaxTx = 1
  Paths = {"p"}
  Auths = {"", "A"}
  Horizon = 4
  Steps = {1}
  Kinds = {"ok","300","400","500","req"}
  MaxLen = 30
  EmitAll = TRUE
VIEW GenView
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
