SPECIFICATION MCSpec
CONSTANTS
  Cfgs <- CfgsB
  MaxTx = 2
  Wants <- WantsTwo
  Srcs = {"X", "Y"}
  Users <- UsersAB
  Horizon = 3
  Steps = {1}
  MaxLen = 0
  Emitting = FALSE
INVARIANTS Inv OkIsHeard OkIsAuthentic RefusalIgnored PlainOutcome
VIEW View
CHECK_DEADLOCK FALSE
