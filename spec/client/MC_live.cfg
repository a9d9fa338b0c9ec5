SPECIFICATION LiveSpec
CONSTANTS
  Cfgs <- CfgsAll
  MaxTx = 2
  Paths = {"p"}
  Auths = {""}
  Horizon = 6
  Steps = {1}
  Kinds = {"ok","500"}
PROPERTY EventuallyEnds
CHECK_DEADLOCK FALSE
