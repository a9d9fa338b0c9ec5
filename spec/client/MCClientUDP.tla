---------------------------- MODULE MCClientUDP ----------------------------
(* Exhaustive exploration of ClientUDP within small constants.                 *)
EXTENDS ClientUDP, Json

CONSTANTS Cfgs, MaxTx, Paths, Auths, Horizon, Steps, Kinds

VARIABLES now, made, ghost
\* ghost: per transaction number: returned sends, returned terminal effects,
\* first accepted outcome, sends after the terminal
mcvars == <<vars, now, made, ghost>>

C(rc, rm, cap, t5, max5, rto0, hdur, allow) ==
    [rc |-> rc, rm |-> rm, cap |-> cap, t5 |-> t5, max5 |-> max5, rto0 |-> rto0, hdur |-> hdur, allow300 |-> allow]
CfgsA == {C(2, 2, <<>>, <<>>, 0, 1, <<>>, FALSE), C(2, 2, <<2>>, <<2>>, 1, 2, <<3>>, FALSE)}
CfgsB == {C(3, 2, <<3>>, <<1>>, 2, 1, <<>>, FALSE)}
CfgsAll == CfgsA \cup CfgsB
CfgsAuth == {C(1, 2, <<>>, <<>>, 0, 1, <<>>, TRUE), C(2, 1, <<>>, <<1>>, 1, 1, <<>>, FALSE)}

Tid(n) == ToString(n)
G0 == [sends |-> 0, terms |-> 0, after |-> 0]

Msg(kind, tid, mi) ==
    LET base == [parse |-> TRUE, cls |-> "success", tid |-> tid, mi |-> mi, ucr |-> "", xor |-> <<>>, map |-> <<>>,
                 code |-> <<>>, err |-> "", alt |-> <<>>, ua |-> <<>>, resp |-> "r"]
    IN CASE kind = "ok"    -> [base EXCEPT !.xor = <<"X">>]
         [] kind = "okmap" -> [base EXCEPT !.map = <<"M">>]
         [] kind = "noaddr" -> base
         [] kind = "ucr"   -> [base EXCEPT !.ucr = "1"]
         [] kind = "300"   -> [base EXCEPT !.cls = "error", !.code = <<300>>, !.alt = <<"A">>]
         [] kind = "400"   -> [base EXCEPT !.cls = "error", !.code = <<400>>, !.err = "e400"]
         [] kind = "500"   -> [base EXCEPT !.cls = "error", !.code = <<500>>, !.err = "e500"]
         [] kind = "600"   -> [base EXCEPT !.cls = "error", !.code = <<600>>, !.err = "e600"]
         [] kind = "req"   -> [base EXCEPT !.cls = "request"]
         [] kind = "junk"  -> [base EXCEPT !.parse = FALSE]

MCInit == \E c \in Cfgs : InitWith(c) /\ now = 0 /\ made = 0 /\ ghost = <<>>

DoCreate == \E p \in Paths, a \in Auths :
    /\ made < MaxTx
    /\ Create(now, made, Tid(made), p, a, "")
    /\ made' = made + 1
    /\ ghost' = Append(ghost, G0)
    /\ UNCHANGED now

DoRespond == \E n \in 0 .. made - 1, k \in Kinds, mi \in (IF Auths = {""} THEN {"none"} ELSE {"none", "bad"} \cup (Auths \ {""})) :
    /\ Respond(now, Msg(k, Tid(n), mi), "*")
    /\ UNCHANGED <<now, made, ghost>>

Bump(g, e) == IF e.k = "send"
              THEN [g EXCEPT !.sends = @ + 1, !.after = IF g.terms > 0 THEN @ + 1 ELSE @]
              ELSE [g EXCEPT !.terms = @ + 1]

DoNext ==
    \/ \E e \in Returnable(now) :
          /\ NextEffect(now, e)
          /\ ghost' = [ghost EXCEPT ![e.h + 1] = Bump(@, e)]
          /\ UNCHANGED <<now, made>>
    \/ \E d \in {x - now : x \in {y \in armed : y > now}} :
          NextSleep(now, d) /\ UNCHANGED <<now, made, ghost>>
    \/ NextIdle(now) /\ UNCHANGED <<now, made, ghost>>

\* Callers poll whenever they like.
Tick == \E s \in Steps : now + s <= Horizon /\ now' = now + s /\ UNCHANGED <<vars, made, ghost>>

MCNext == DoCreate \/ DoRespond \/ DoNext \/ Tick
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
(* C01 *)
ExactlyOnce == \A i \in DOMAIN ghost : ghost[i].terms <= 1 /\ ghost[i].after = 0
EndedIffReturned == \A i \in DOMAIN ghost : ghost[i].terms = 1 <=> (i - 1) \notin DOMAIN tx
(* C01: an outcome, once determined, is never changed *)
OutcomeStable == [][\A i \in DOMAIN fx, j \in DOMAIN fx' :
                      (IsTerminal(fx[i]) /\ IsTerminal(fx'[j]) /\ fx[i].h = fx'[j].h) => fx[i] = fx'[j]]_mcvars
(* C02 / C05 *)
SendBound == \A h \in DOMAIN tx : ghost[h + 1].sends <= cfg.rc + tx[h].n5
TimeoutOnlyAfterAll == \A i \in DOMAIN fx : (fx[i].k = "fail" /\ fx[i].why = "timeout") =>
                         tx[fx[i].h].sends = cfg.rc + tx[fx[i].h].n5
(* C02: waits never shrink below the first except by the cap or a 5xx *)
WaitsMonotone == \A h \in DOMAIN tx :
                    tx[h].last >= (IF tx[h].sends = cfg.rc THEN 0 ELSE IF cfg.cap = <<>> THEN tx[h].rto ELSE Min(tx[h].rto, cfg.cap[1]))
CapHolds == \A h \in DOMAIN tx : (cfg.cap # <<>> /\ tx[h].sends > 1) => tx[h].last <= cfg.cap[1]
(* C03: a transaction with credentials only ends by timeout or an authenticated response *)
(* C06 *)
HistSane == \A p \in DOMAIN hist : hist[p].at <= now /\ (hist[p].b # <<>> \/ hist[p].s # <<>>)
(* C08 *)
LiveHasFutureOrDue == \A h \in Live(tx) : tx[h].dl >= tx[h].created

-----------------------------------------------------------------------------
(* Liveness: a caller that follows the announced sleeps reaches the end of every *)
(* transaction (no ticks other than to announced wake-up times).                  *)
Follow == \E d \in {x - now : x \in {y \in armed : y > now}} :
            /\ NextSleep(now, d)
            /\ now' = now + d
            /\ UNCHANGED <<made, ghost>>
Return == \E e \in Returnable(now) :
          /\ NextEffect(now, e)
          /\ ghost' = [ghost EXCEPT ![e.h + 1] = Bump(@, e)]
          /\ UNCHANGED <<now, made>>
DoRespondOnce == DoRespond /\ tx' # tx
LiveNext == DoCreate \/ DoRespondOnce \/ Follow \/ Return
LiveSpec == MCInit /\ [][LiveNext]_mcvars /\ WF_mcvars(Follow) /\ WF_mcvars(Return)
AllEnd == <>[](tx = EmptyFn)
EventuallyEnds == \A h \in 0 .. MaxTx - 1 : [](h \in DOMAIN tx => <>(h \notin DOMAIN tx))
=============================================================================
