SPECIFICATION LiveSpec
CONSTANTS
  Cfgs <- CfgsAll
  MaxTx = 1
  Paths = {"p"}
  Auths = {""}
  Horizon = 6
  Steps = {1}
  Kinds = {"ok","500"}
PROPERTY EventuallyEnds
CHECK_DEADLOCK FALSE
