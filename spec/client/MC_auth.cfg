SPECIFICATION MCSpec
CONSTANTS
  Cfgs <- CfgsAuth
  MaxTx = 1
  Paths = {"p"}
  Auths = {"", "A"}
  Horizon = 7
  Steps = {1}
  Kinds = {"ok", "300", "400", "500", "600", "req", "junk"}
INVARIANTS Inv ExactlyOnce EndedIffReturned SendBound TimeoutOnlyAfterAll WaitsMonotone CapHolds HistSane LiveHasFutureOrDue
PROPERTY OutcomeStable
CHECK_DEADLOCK FALSE
