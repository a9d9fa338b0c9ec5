SPECIFICATION MCSpec
CONSTANTS
  Cfgs <- CfgsAll
  MaxTx = 1
  Paths = {"p"}
  Auths = {""}
  Horizon = 12
  Steps = {1, 2, 3}
  Kinds = {"ok", "okmap", "noaddr", "ucr", "300", "400", "500", "600", "req", "junk"}
INVARIANTS Inv ExactlyOnce EndedIffReturned SendBound TimeoutOnlyAfterAll WaitsMonotone CapHolds HistSane LiveHasFutureOrDue
PROPERTY OutcomeStable
CHECK_DEADLOCK FALSE
