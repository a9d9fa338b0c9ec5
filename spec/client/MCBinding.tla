----------------------------- MODULE MCBinding -----------------------------
EXTENDS Binding, Json
CONSTANTS Cfgs, MaxTx, Wants, Srcs, Users, Horizon, Steps, MaxLen, Emitting
VARIABLES now, made, done, stim
mvars == <<bvars, now, made, done>>
View == <<bvars, now, made, done>>

C(rc, rm, cap, t5, max5, rto0, hdur, allow) ==
    [rc |-> rc, rm |-> rm, cap |-> cap, t5 |-> t5, max5 |-> max5, rto0 |-> rto0, hdur |-> hdur, allow300 |-> allow]
CfgsB == {C(2, 1, <<>>, <<>>, 0, 1, <<>>, FALSE), C(1, 2, <<>>, <<1>>, 1, 1, <<>>, TRUE)}
W(auth, uname, ucr) == [auth |-> auth, uname |-> uname, ucr |-> ucr]
WantsAll == {W("", FALSE, ""), W("A", FALSE, ""), W("", TRUE, ""), W("", FALSE, "2"), W("A", FALSE, "2")}
WantsTwo == {W("", FALSE, ""), W("A", FALSE, ""), W("B", FALSE, "")}
UsersAB == {<<"A", "A">>, <<"A", "B">>}
UsersTwo == {<<"A", "A">>, <<"A", "B">>, <<"B", "B">>}

MCInit == \E c \in Cfgs : InitBinding(c) /\ now = 0 /\ made = 0 /\ done = {} /\ stim = <<>>
St(x) == stim' = IF Emitting THEN Append(stim, x) ELSE stim

DoCreate == \E w \in Wants :
    /\ made < MaxTx /\ BCreate(now, made, ToString(made), "p", w.auth, w)
    /\ made' = made + 1 /\ UNCHANGED <<now, done>> /\ St(<<"create", w>>)
DoNext ==
    /\ St(<<"next">>) /\ UNCHANGED <<now, made>>
    /\ \/ \E e \in Returnable(now) :
             IF e.k = "send" THEN BSend(now, e.h) /\ UNCHANGED done
             ELSE BReturn(now, e) /\ done' = done \cup {[e |-> e, t |-> tx[e.h]]}
       \/ (\E d \in {x - now : x \in {y \in armed : y > now}} : BSleep(now, d)) /\ UNCHANGED done
       \/ BIdle(now) /\ UNCHANGED done
DoServe == \E p \in net, s \in Srcs :
    /\ p.to = "server"
    /\ Serve(p, s, [Answer(p, s) EXCEPT !.err = IF Answer(p, s).cls = "error" THEN ToString(Answer(p, s).code[1]) ELSE ""])
    /\ UNCHANGED <<now, made, done>> /\ St(<<"serve", p.tid, s>>)
DoDeliver == \E p \in net :
    /\ p.to = "client" /\ Deliver(now, p, "*")
    /\ UNCHANGED <<now, made, done>> /\ St(<<"deliver", p.tid, p.m.xor, p.m.cls>>)
DoUser == \E u \in Users : u[1] \notin DOMAIN users /\ AddUser(u[1], u[2]) /\ UNCHANGED <<now, made, done>> /\ St(<<"user", u[1], u[2]>>)
Tick == \E s \in Steps : now + s <= Horizon /\ now' = now + s /\ UNCHANGED <<bvars, made, done>> /\ St(<<"tick", s>>)

MCNext == (Emitting => Len(stim) < MaxLen) /\ (DoCreate \/ DoNext \/ DoServe \/ DoDeliver \/ DoUser \/ Tick)
MCSpec == MCInit /\ [][MCNext]_<<mvars, stim>>

\* An address reported by a successful transaction is a source of one of its own requests.
OkIsHeard == \A x \in done : x.e.k = "ok" => x.t.tid \in DOMAIN heard /\ x.e.data \in heard[x.t.tid]
\* Success only without credentials or with credentials the server knows.
OkIsAuthentic == \A x \in done : (x.e.k = "ok" /\ x.t.auth # "") => x.t.auth \in DOMAIN users /\ users[x.t.auth] = x.t.auth
\* The server's refusals are not signed, so they do not end a transaction with credentials.
RefusalIgnored == \A x \in done : (x.e.k = "fail" /\ x.t.auth # "") => x.e.why = "timeout"
\* Without credentials every transaction that is answered in time is decided by the first answer.
PlainOutcome == \A x \in done : (x.e.k = "fail" /\ x.t.auth = "" /\ x.e.why # "timeout") => x.t.want.uname \/ x.t.want.ucr # ""
Emit == Emitting => PrintT(<<"EMIT", ToJson([cfg |-> cfg, s |-> stim'])>>)
=============================================================================
