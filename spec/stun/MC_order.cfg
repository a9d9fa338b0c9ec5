SPECIFICATION Spec
CONSTANTS
  MaxAttrs = 3
  Deep = FALSE
  Headers = {"req","err"}
  Tokens = {"user","user2","prio","xor4","xor6","map4","map6","alt4","unkReq","unkOpt","code","types","cling","mi","miBad","fp","prioBad"}
INVARIANTS RoundTrip OneCounter Emit
CHECK_DEADLOCK FALSE
