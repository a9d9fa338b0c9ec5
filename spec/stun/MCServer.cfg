SPECIFICATION Spec
CONSTANTS
  MaxAdds = 2
  MaxReqs = 1
  Emitting = FALSE
INVARIANTS FirstRegistrationCounts DecisionTable NoForgery ResponseReadsBack
CHECK_DEADLOCK FALSE
