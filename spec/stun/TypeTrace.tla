----------------------------- MODULE TypeTrace -----------------------------
(* Message type <-> class and method, over batches of all 16-bit types.        *)
EXTENDS StunWire, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Must(c, what) == IF c THEN TRUE ELSE PrintT(<<"EXPECTED", ToString(what)>>) /\ FALSE
\* bit b of the type belongs to the class (so flipping it keeps the method)
ClassBits == {4, 8}
EqMask == P2[13 - 4] + P2[13 - 8]
One(i) ==
    LET v == Ev.from + i - 1
        c == ClassOf(v)
        m == MethodOf(v)
    IN /\ Must(Ev.cls[i] = c /\ Ev.val[i] = c, <<v, "class", c>>)
       /\ Must(Ev.cenc[i] = TypeOf(c, 0), <<v, "class encodes as", TypeOf(c, 0)>>)
       /\ Must(Ev.menc[i] = TypeOf(0, m), <<v, "method encodes as", TypeOf(0, m)>>)
       /\ Must(Ev.rt[i] = 1, <<v, "round trip">>)
       /\ Must(Ev.eq[i] = EqMask, <<v, "methods equal exactly when all method bits are">>)
TReset == IsEvent("reset")
TTypes == /\ IsEvent("types")
          /\ \A i \in 1..Len(Ev.cls) : One(i)
          /\ Must(Ev.binding, "Binding is method 1")
          /\ Must(Ev.classes = <<TypeOf(0, 0), TypeOf(1, 0), TypeOf(2, 0), TypeOf(3, 0)>>, "the four classes")
TraceInit == l = 1
TraceNext == TReset \/ TTypes
TraceSpec == TraceInit /\ [][TraceNext]_l
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
