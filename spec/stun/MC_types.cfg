SPECIFICATION Spec
CONSTANTS
  MaxAttrs = 1
  Deep = TRUE
  Headers = {"req","ind","suc","err","oldreq","oldsuc","wide","top"}
  Tokens = {"user","mi","fp"}
INVARIANTS RoundTrip OneCounter TypeInverseAll
CHECK_DEADLOCK FALSE
