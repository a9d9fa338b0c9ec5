SPECIFICATION MCSpec
CONSTANTS
  Cfgs <- CfgsA
  MaxTx = 2
  Paths = {"p"}
  Auths = {""}
  Horizon = 6
  Steps = {1}
  Kinds = {"ok"}
INVARIANTS Inv ExactlyOnce EndedIffReturned SendBound TimeoutOnlyAfterAll WaitsMonotone CapHolds HistSane LiveHasFutureOrDue
PROPERTY OutcomeStable
CHECK_DEADLOCK FALSE
