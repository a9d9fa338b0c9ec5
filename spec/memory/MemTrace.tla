------------------------------ MODULE MemTrace ------------------------------
(* The heap the real client, server and parsers hold after a quarter, a half, three quarters and all of a long run, *)
(* against what they have to remember (Residue).                                                                    *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, IOUtils
R == INSTANCE Residue WITH Together <- 1, Arms <- 1, Wait <- 1, Gap <- 1, Hist <- 1, Paths <- 1, End <- 1, NewPaths <- TRUE, Eager <- TRUE,
                           now <- 0, live <- {}, armed <- {}, known <- {}, ended <- 0, fresh <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Must(c, what) == IF c THEN TRUE ELSE PrintT(<<"EXPECTED", ToString(what)>>) /\ FALSE
\* bytes; generous: what is remembered for each transaction, path or user must not be, not how compactly it is kept
Base == 32768
PerLive == 1024     \* places of containers, kept after the most that was ever in them
PerArmed == 64
PerKnown == 1024
PerUser == 2048
Within(b) == Must(Ev.wrong = "", Ev.wrong) /\ \A i \in DOMAIN Ev.heap : Must(Ev.heap[i] <= b, <<"at most", b, "bytes">>)
TReset == IsEvent("reset")
\* times in milliseconds
TClient == /\ IsEvent("client")
           /\ Within(Base + Ev.together * PerLive + R!Armed(Ev.together, Ev.arms, Ev.wait, Ev.gap) * PerArmed
                          + R!Known(Ev.together, Ev.paths, Ev.hist, Ev.gap) * PerKnown)
TServer == IsEvent("server") /\ Within(Base + Ev.users * PerUser)
TParse == IsEvent("parse") /\ Within(Base)
TraceNext == TReset \/ TClient \/ TServer \/ TParse
TraceSpec == l = 1 /\ [][TraceNext]_l
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
