---------------------------- MODULE BindingTrace ----------------------------
(* Is a recorded history of a real client and a real server, with every         *)
(* datagram between them, a behaviour of Binding?                               *)
EXTENDS Binding, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen
tvars == <<bvars, l, seen>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

TReset == /\ IsEvent("reset")
          /\ cfg' = Ev.cfg /\ tx' = EmptyFn /\ fx' = <<>> /\ armed' = {} /\ hist' = EmptyFn
          /\ users' = EmptyFn /\ net' = {} /\ heard' = EmptyFn /\ seen' = {}
TCreate == /\ IsEvent("create") /\ Ev.ok
           /\ BCreate(Ev.t, Ev.h, Ev.tid, Ev.path, Ev.auth, Ev.want)
           /\ seen' = seen \ {Ev.h}
TUser == IsEvent("user") /\ AddUser(Ev.who, Ev.pw) /\ UNCHANGED seen
Eff == [k |-> Ev.k, h |-> Ev.h, why |-> Ev.why, data |-> Ev.data, rtt |-> Ev.rtt, resp |-> Ev.resp, g |-> <<>>]
TNext == /\ IsEvent("next")
         /\ CASE Ev.k = "send" -> Ev.h \in DOMAIN tx /\ BSend(Ev.t, Ev.h) /\ Ev.same = (Ev.h \in seen) /\ seen' = seen \cup {Ev.h}
              [] Ev.k \in {"ok", "fail"} -> BReturn(Ev.t, Eff) /\ UNCHANGED seen
              [] Ev.k = "sleep" -> BSleep(Ev.t, Ev.d) /\ UNCHANGED seen
              [] Ev.k = "idle" -> BIdle(Ev.t) /\ UNCHANGED seen
\* intact request
TServe == /\ IsEvent("serve") /\ Ev.k = "respond"
          /\ \E p \in net : p.to = "server" /\ p.tid = Ev.tid /\ Serve(p, Ev.src, Ev.m)
          /\ UNCHANGED seen
\* damaged or foreign datagram
TDrop == IsEvent("drop") /\ Ev.k = "ignore" /\ Drop /\ UNCHANGED seen
\* an answer in the net
TDeliver == /\ IsEvent("deliver")
            /\ \E p \in net : p.to = "client" /\ p.m = Ev.m /\ Deliver(Ev.t, p, Ev.r)
            /\ UNCHANGED seen
\* a damaged or reflected datagram
TResp == IsEvent("resp") /\ Foreign(Ev.t, Ev.m, Ev.r) /\ UNCHANGED seen

TraceInit == InitBinding(DefaultCfg) /\ l = 1 /\ seen = {}
TraceNext == TReset \/ TCreate \/ TUser \/ TNext \/ TServe \/ TDrop \/ TDeliver \/ TResp
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* the same guarantees on what the real pair did so far
TraceInv == Inv /\ \A i \in DOMAIN fx : fx[i].k = "ok" /\ fx[i].h \in DOMAIN tx =>
               LET t == tx[fx[i].h] IN
               /\ t.tid \in DOMAIN heard /\ fx[i].data \in heard[t.tid]
               /\ t.auth # "" => t.auth \in DOMAIN users /\ users[t.auth] = t.auth
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
