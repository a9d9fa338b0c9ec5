------------------------------ MODULE RtpTrace ------------------------------
(* Recorded calls of the real RTP parser, checked against RtpWire.             *)
EXTENDS RtpWire, Json, IOUtils
CONSTANT Aspects

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, map, st
tvars == <<l, map, st>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
On(a) == a \in Aspects
Expect(what) == PrintT(<<"EXPECTED", ToString(what)>>)
Must(c, what) == IF c THEN TRUE ELSE Expect(what) /\ FALSE

Counters == {"success", "error", "invalid_size", "invalid_version", "invalid_csrc", "invalid_extension", "invalid_payload_type",
             "unknown_rtp_clock", "invalid_padding"}
Zero == [c \in Counters |-> 0]
Incr(cs) == [c \in Counters |-> st[c] + (IF c \in cs THEN Ev.times ELSE 0)]
NoMap == [x \in {} |-> <<0, 0>>]

TReset == IsEvent("reset") /\ st' = Zero /\ map' = NoMap
\* pairs in the order given: the first rate given for a payload type counts
TMap == /\ IsEvent("map") /\ UNCHANGED st
        /\ LET pts == {Ev.pairs[i][1] : i \in DOMAIN Ev.pairs}
               firstOf(pt) == CHOOSE i \in DOMAIN Ev.pairs : Ev.pairs[i][1] = pt /\ \A j \in 1..(i - 1) : Ev.pairs[j][1] # pt
           IN map' = [pt \in pts |-> <<Ev.pairs[firstOf(pt)][2], Ev.pairs[firstOf(pt)][3]>>]
TRate == /\ IsEvent("rate") /\ UNCHANGED <<st, map>>
         /\ On("packet") => LET r == IF Ev.pt \in DOMAIN map THEN << map[Ev.pt] >> ELSE <<>> IN Must(Ev.rate = r, r)
TParse == /\ IsEvent("parse") /\ UNCHANGED map
          /\ LET p == Parse(Ev.d, map)
                 same == Ev.ok = p.ok /\ Ev.oks = (IF p.ok THEN Ev.times ELSE 0) /\ (p.ok \/ Ev.err = p.err \/ p.err = "any")
             IN /\ On("packet") => /\ Must(same, <<p.ok, p.err>>)
                                   /\ p.ok => Must(Ev.m = p.m, p.m)
                /\ On("stat") => IF same THEN Must(Ev.st = Incr(p.ctr), p.ctr)
                                 ELSE Must(/\ Ev.st.success = st.success + Ev.oks
                                           /\ Ev.st.error = st.error + Ev.times - Ev.oks
                                           /\ \A c \in Counters : Ev.st[c] >= st[c], "one of success and error")
          /\ st' = Ev.st
TraceInit == l = 1 /\ map = NoMap /\ st = Zero
TraceNext == TReset \/ TMap \/ TRate \/ TParse
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
