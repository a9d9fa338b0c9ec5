SPECIFICATION Spec
CONSTANTS
  MaxAttrs = 3
  Deep = TRUE
  Headers = {"req","oldreq"}
  Tokens = {"user","unkOpt","mi","miBad","fp","soft"}
INVARIANTS RoundTrip OneCounter IntegrityInterval FingerprintGuards TypeInverse Emit
CHECK_DEADLOCK FALSE
