----------------------------- MODULE MCConverter -----------------------------
(* The converter on small readings; prints every sequence of readings.         *)
EXTENDS Converter, Sequences, TLC, Json
CONSTANTS Lo, Hi, N
LoV == -4
VARIABLE hist
Readings == Lo..Hi
MCInit == \E t \in Readings : Start(t) /\ hist = <<t>>
MCNext == Len(hist) < N /\ \E t \in Readings : Read(t) /\ hist' = Append(hist, t)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == Len(hist) = N => PrintT(<<"EMIT", ToJson(hist)>>)
=============================================================================
