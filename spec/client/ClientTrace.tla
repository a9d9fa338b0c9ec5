---------------------------- MODULE ClientTrace ----------------------------
(* Is a recorded history of the real client a behaviour of ClientUDP?          *)
(* Events: reset (new client), create, resp, next - one per public call.        *)
EXTENDS ClientUDP, Json, IOUtils

CONSTANT CheckWire   \* also compare the bytes of SendData with the request

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, seen,   \* position; handles whose first SendData was returned
          drawn      \* words of the random device -> transaction id made of them
tvars == <<vars, l, seen, drawn>>

Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

TReset == /\ IsEvent("reset")
          /\ cfg' = Ev.cfg /\ tx' = EmptyFn /\ fx' = <<>> /\ armed' = {} /\ hist' = EmptyFn
          /\ Ev.default => Ev.cfg = DefaultIn(Ev.unit)
          /\ seen' = {}
          /\ drawn' = IF Ev.fresh THEN EmptyFn ELSE drawn

\* The id is a function of the words of the supplied random device, different for
\* different words (rnd = "" when the first words collide with a live transaction).
DrawOk == (CheckWire /\ Ev.rnd # "") =>
    /\ Ev.used > 0
    /\ IF Ev.rnd \in DOMAIN drawn THEN drawn[Ev.rnd] = Ev.tid
       ELSE \A w \in DOMAIN drawn : drawn[w] # Ev.tid

TCreate == /\ IsEvent("create")
           /\ Ev.ok
           /\ Create(Ev.t, Ev.h, Ev.tid, Ev.path, Ev.auth, Ev.want)
           /\ seen' = seen \ {Ev.h}
           /\ DrawOk
           /\ drawn' = IF CheckWire /\ Ev.rnd # "" THEN (Ev.rnd :> Ev.tid) @@ drawn ELSE drawn

TResp == IsEvent("resp") /\ Respond(Ev.t, Ev.m, Ev.r) /\ UNCHANGED <<seen, drawn>>

Eff == [k |-> Ev.k, h |-> Ev.h, why |-> Ev.why, data |-> Ev.data, rtt |-> Ev.rtt, resp |-> Ev.resp, g |-> <<>>]

SendOk == IF Ev.h \in seen THEN Ev.same
          ELSE ~Ev.same /\ (CheckWire => Ev.wire = tx[Ev.h].want)

TNext == /\ IsEvent("next")
         /\ CASE Ev.k = "send" -> Ev.h \in DOMAIN tx /\ NextEffect(Ev.t, Eff) /\ SendOk /\ seen' = seen \cup {Ev.h}
              [] Ev.k \in {"ok", "fail"} -> NextEffect(Ev.t, Eff) /\ UNCHANGED seen
              [] Ev.k = "sleep" -> NextSleep(Ev.t, Ev.d) /\ UNCHANGED seen
              [] Ev.k = "idle" -> NextIdle(Ev.t) /\ UNCHANGED seen
         /\ UNCHANGED drawn

TBurn == IsEvent("burn") /\ Ev.wrong = "" /\ Burn(Ev.t) /\ UNCHANGED <<seen, drawn>>

TraceInit == InitWith(DefaultCfg) /\ l = 1 /\ seen = {} /\ drawn = EmptyFn
TraceNext == TReset \/ TCreate \/ TResp \/ TNext \/ TBurn
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* every reached state satisfies the specification's invariant as well
TraceInv == Inv

Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
