SPECIFICATION MCSpec
CONSTANTS
  Cfgs <- CfgsB
  MaxTx = 1
  Wants <- WantsAll
  Srcs = {"X", "Y"}
  Users <- UsersAB
  Horizon = 3
  Steps = {1}
  MaxLen = 16
  Emitting = TRUE
INVARIANTS Inv OkIsHeard OkIsAuthentic RefusalIgnored PlainOutcome
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
