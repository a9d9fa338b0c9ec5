------------------------------ MODULE UseTrace ------------------------------
(* The memory the real parsers, the builder and the server ask for while they handle one input, in bytes and in     *)
(* pieces, against the size of the input (Use).                                                                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Must(c, what) == IF c THEN TRUE ELSE PrintT(<<"EXPECTED", ToString(what)>>) /\ FALSE
\* generous: how much is asked for each byte does not matter, that it does not grow with the input does
Base == 32768
PerByte == 512
Pieces == 256
PerBytePieces == 8
TReset == IsEvent("reset")
TUse == /\ IsEvent("use")
        /\ Must(Ev.bytes <= Base + PerByte * Ev.size, <<"at most", Base + PerByte * Ev.size, "bytes for", Ev.size>>)
        /\ Must(Ev.pieces <= Pieces + PerBytePieces * Ev.size, <<"at most", Pieces + PerBytePieces * Ev.size, "allocations for", Ev.size>>)
TraceNext == TReset \/ TUse
TraceSpec == l = 1 /\ [][TraceNext]_l
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
