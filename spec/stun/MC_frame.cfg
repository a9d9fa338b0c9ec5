SPECIFICATION Spec
CONSTANTS
  MaxAttrs = 2
  Deep = FALSE
  Headers = {"req","ind","suc","err","oldreq","oldsuc","wide","top"}
  Tokens = {"user","user2","soft","prio","prio2","prioBad","xor4","xor6","xorBad","xorShort","map4","map6","mapBad","alt4","altBad","unkReq","unkReq2","unkOpt","code","codeBad","use","useBad","types","typesBad","cling","clingBad","cled","cledBad","mi","miBad","miShort","fp","fpBad","fpShort","cut","cut4","len","junk","odd","over"}
INVARIANTS RoundTrip OneCounter Emit
CHECK_DEADLOCK FALSE
