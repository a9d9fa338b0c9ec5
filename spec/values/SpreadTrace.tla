----------------------------- MODULE SpreadTrace -----------------------------
(* Hashes of families of different contents: nearly no two of them are the same, however little the contents differ. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fn
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Must(c, what) == IF c THEN TRUE ELSE PrintT(<<"EXPECTED", ToString(what)>>) /\ FALSE
TReset == IsEvent("reset") /\ fn' = <<>>
\* the content of a family is all that tells its members apart: a value or, for one value, the seed
Add(c, h) == fn' = (c :> h) @@ fn /\ Must(c \in DOMAIN fn => fn[c] = h, "the hash it had")
THash == IsEvent("hash") /\ Add(Ev.c, Ev.h)
TSeeded == IsEvent("seeded") /\ Add(Ev.s, Ev.h)
TCount == /\ IsEvent("count") /\ UNCHANGED fn
          /\ LET n == Cardinality(DOMAIN fn)
                 m == Cardinality({fn[c] : c \in DOMAIN fn})
             IN Must(n - m <= n \div 500, <<n, "hashes, but", m>>)
TraceNext == TReset \/ THash \/ TSeeded \/ TCount
TraceSpec == l = 1 /\ fn = <<>> /\ [][TraceNext]_<<l, fn>>
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
