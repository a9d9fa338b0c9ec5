----------------------------- MODULE ClientUDP -----------------------------
(* State machine of the STUN client over UDP (src/stun/stun_client_udp,          *)
(* src/stun/details/stun_client_udp_rto).  Actions are the three public calls  *)
(* of the client: create, response and next.  All times and durations are        *)
(* microseconds relative to an arbitrary base, all optional values are sequences *)
(* of length 0 or 1.                                                             *)
(*                                                                               *)
(* Sources: RFC 5389 7.2.1 (retransmission), 7.3 (responses), 11 (alternate      *)
(* server); RFC 6298 (RTO); Karn & Partridge (samples and back-off);             *)
(* comments of the settings and effects headers.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    cfg,    \* settings: [rc, rm, cap, t5, max5, rto0, hdur, allow300]
    tx,     \* handle -> transaction that has not returned its terminal effect yet
    fx,     \* effects waiting to be returned by next(), in order of their causes
    armed,  \* every deadline ever scheduled and not yet passed by a poll
    hist    \* path -> RTO history [s: <<>> or <<srtt, rttvar>>, b: back-off, at]

vars == <<cfg, tx, fx, armed, hist>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
EmptyFn == <<>>
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* Library defaults (stun_client_udp_settings.hpp, RFC 5389 7.2.1) for units of
\* time of u microseconds.  In microseconds the hour for which the history is kept
\* is longer than any behaviour.
DefaultIn(u) == [rc |-> 7, rm |-> 16, cap |-> <<>>, t5 |-> <<>>, max5 |-> 4,
                 rto0 |-> 500000 \div u, hdur |-> IF u = 1 THEN <<>> ELSE <<2 * (1800000000 \div u)>>, allow300 |-> FALSE]
DefaultCfg == DefaultIn(1)

-----------------------------------------------------------------------------
(* Effects.  g is empty for the effects of create and response; effects of deadlines *)
(* carry the poll and the deadline: those of equal deadlines may be returned in any order. *)
SendFx(h)             == [k |-> "send", h |-> h, why |-> "", data |-> "", rtt |-> <<>>, resp |-> "", g |-> <<>>]
OkFx(h, ep, rtt, rsp) == [k |-> "ok",   h |-> h, why |-> "", data |-> ep, rtt |-> rtt,  resp |-> rsp, g |-> <<>>]
FailFx(h, why, data)  == [k |-> "fail", h |-> h, why |-> why, data |-> data, rtt |-> <<>>, resp |-> "", g |-> <<>>]
IsTerminal(e) == e.k \in {"ok", "fail"}
At(e, g) == [e EXCEPT !.g = g]

\* Positions of the effects that may be returned first.
Firsts(q) == IF q = <<>> THEN {}
             ELSE {i \in DOMAIN q : /\ \A j \in 1 .. i : q[j].g = q[1].g
                                    /\ (i > 1 => q[1].g # <<>>)
                                    /\ \A j \in 1 .. i - 1 : q[j].h # q[i].h}
RemoveAt(q, i) == [j \in 1 .. Len(q) - 1 |-> IF j < i THEN q[j] ELSE q[j + 1]]

-----------------------------------------------------------------------------
(* RTO estimation, per network path *)

Expired(p, now) == p \in DOMAIN hist /\ cfg.hdur # <<>> /\ now - hist[p].at > cfg.hdur[1]

HistRto(e) == IF e.b # <<>> THEN e.b[1]
              ELSE IF e.s # <<>> THEN e.s[1][1] + 4 * e.s[1][2]
              ELSE cfg.rto0

\* First wait of a new transaction.  History that is overdue for discarding may
\* or may not have been discarded yet.
RtoChoices(p, now) ==
    IF p \notin DOMAIN hist THEN {cfg.rto0}
    ELSE {HistRto(hist[p])} \cup (IF Expired(p, now) THEN {cfg.rto0} ELSE {})

Smooth(e, r) ==
    IF e.s = <<>> THEN <<r, r \div 2>>
    ELSE LET srtt == e.s[1][1]  rttvar == e.s[1][2]
         IN <<(7 * srtt + r) \div 8, (3 * rttvar + Abs(srtt - r)) \div 4>>

Fresh == [s |-> <<>>, b |-> <<>>, at |-> 0]
EntryChoices(p, now) ==
    IF p \notin DOMAIN hist THEN {Fresh}
    ELSE {hist[p]} \cup (IF Expired(p, now) THEN {Fresh} ELSE {})

\* A round-trip sample: everything overdue on other paths is discarded for sure.
AfterSample(p, now, r) ==
    { LET keep == {q \in DOMAIN hist \ {p} : ~Expired(q, now)}
      IN (p :> [s |-> <<Smooth(e, r)>>, b |-> <<>>, at |-> now]) @@ [q \in keep |-> hist[q]]
      : e \in EntryChoices(p, now) }

\* A success that needed retransmissions: back-off value replaces the estimate.
\* Overdue entries may or may not be discarded.
AfterBackoff(p, now, w) ==
    { (p :> [s |-> e.s, b |-> <<w>>, at |-> now]) @@ [q \in (DOMAIN hist \ {p}) \ drop |-> hist[q]]
      : e \in EntryChoices(p, now),
        drop \in {{}, {q \in DOMAIN hist : Expired(q, now)}} }

-----------------------------------------------------------------------------
(* Retransmission *)

FirstWait(rto) == IF cfg.rc = 1 THEN rto * cfg.rm ELSE rto

Capped(w) == IF cfg.cap = <<>> THEN w ELSE Min(w, cfg.cap[1])

\* Wait after the send number n (n >= 2) of a transaction whose previous wait was w.
NextWait(t, n) == Capped(IF n = cfg.rc THEN t.rto * cfg.rm ELSE 2 * t.last)

\* The deadline of live transaction h has passed: one more send, or the end.
Fire(S, h, now) ==
    LET t == S.tx[h]
    IN IF t.sends >= cfg.rc + t.n5
       THEN [S EXCEPT !.tx = [@ EXCEPT ![h] = [t EXCEPT !.st = "ended"]],
                      !.fx = Append(@, At(FailFx(h, "timeout", ""), <<now, t.dl>>))]
       ELSE LET w == NextWait(t, t.sends + 1)
            IN [S EXCEPT !.tx = [@ EXCEPT ![h] = [t EXCEPT !.sends = @ + 1, !.last = w, !.dl = now + w]],
                         !.fx = Append(@, At(SendFx(h), <<now, t.dl>>)),
                         !.armed = @ \cup {now + w}]

Live(T) == {h \in DOMAIN T : T[h].st = "live"}
LiveDl(T) == {T[h].dl : h \in Live(T)}

\* All deadlines up to now, in deadline order (the order of equal ones is immaterial).
RECURSIVE ProcessDue(_, _)
ProcessDue(S, now) ==
    LET due == {h \in Live(S.tx) : S.tx[h].dl <= now}
    IN IF due = {} THEN S
       ELSE ProcessDue(Fire(S, CHOOSE h \in due : \A g \in due : S.tx[h].dl < S.tx[g].dl \/ (S.tx[h].dl = S.tx[g].dl /\ h <= g), now), now)

-----------------------------------------------------------------------------
(* create *)
Create(now, h, tid, path, auth, want) ==
    /\ h \notin DOMAIN tx
    /\ \A g \in DOMAIN tx : tx[g].tid # tid
    /\ \E rto \in RtoChoices(path, now) :
         LET w == FirstWait(rto) IN
         /\ tx' = (h :> [tid |-> tid, path |-> path, auth |-> auth, created |-> now, rto |-> rto,
                         sends |-> 1, last |-> w, dl |-> now + w, n5 |-> 0, st |-> "live", want |-> want]) @@ tx
         /\ armed' = armed \cup {now + w}
    /\ fx' = Append(fx, SendFx(h))
    /\ UNCHANGED <<cfg, hist>>

-----------------------------------------------------------------------------
(* response: m is the datagram as seen by an independent parser                  *)
(*   [parse, cls, tid, mi, ucr, xor, map, code, err, alt, ua, resp]              *)
(*   cls: "foreign" for messages of another method than Binding                  *)
(*   mi: "none", "bad" or the credentials it is valid for                        *)

Finish(h, e) ==
    /\ tx' = [tx EXCEPT ![h].st = "ended"]
    /\ fx' = Append(fx, e)
    /\ UNCHANGED <<cfg, armed>>

Matching(m) == {h \in DOMAIN tx : tx[h].tid = m.tid}

Unauthenticated300(m) == cfg.allow300 /\ m.cls = "error" /\ m.code = <<300>>

AuthError(t, m) ==
    IF t.auth = "" THEN ""
    ELSE IF m.mi = "none" THEN IF Unauthenticated300(m) THEN "" ELSE "no_integrity_attribute_in_response"
    ELSE IF m.mi = t.auth THEN "" ELSE "digest_is_not_valid"

SuccessOutcome(h, m, now) ==
    LET t == tx[h]
        rtt == IF t.sends = 1 THEN <<now - t.created>> ELSE <<>>
    IN IF m.xor # <<>> THEN OkFx(h, m.xor[1], rtt, m.resp)
       ELSE IF m.map # <<>> THEN OkFx(h, m.map[1], rtt, m.resp)
       ELSE FailFx(h, "error", "no_address_in_response")

RespondSuccess(now, h, m) ==
    IF m.ucr # ""
    THEN Finish(h, FailFx(h, "unknown_comprehension_required", m.ucr)) /\ UNCHANGED hist
    ELSE /\ Finish(h, SuccessOutcome(h, m, now))
         /\ hist' \in (IF tx[h].sends = 1 THEN AfterSample(tx[h].path, now, now - tx[h].created)
                                          ELSE AfterBackoff(tx[h].path, now, tx[h].last))

Retry5xx(now, h) ==
    LET dl == now + cfg.t5[1] IN
    /\ tx' = [tx EXCEPT ![h].dl = dl, ![h].n5 = @ + 1]
    /\ armed' = armed \cup {dl}
    /\ UNCHANGED <<cfg, fx, hist>>

Unchanged == UNCHANGED vars

RespondError(now, h, m) ==
    LET c == m.code[1] IN
    IF m.ucr # "" THEN Finish(h, FailFx(h, "unknown_comprehension_required", m.ucr)) /\ UNCHANGED hist
    ELSE IF m.code = <<>> THEN Finish(h, FailFx(h, "error", "no_error_code_in_response")) /\ UNCHANGED hist
    ELSE IF c = 300 THEN
         /\ Finish(h, IF m.alt # <<>> THEN FailFx(h, "alternate", m.alt[1])
                                      ELSE FailFx(h, "error", "no_alternate_server_in_response"))
         /\ UNCHANGED hist
    ELSE IF c \div 100 \in {3, 4} THEN
         /\ Finish(h, IF c = 420 /\ m.ua # <<>> THEN FailFx(h, "unknown_reported", m.ua[1])
                                                ELSE FailFx(h, "error_code", m.err))
         /\ UNCHANGED hist
    ELSE IF c \div 100 = 5 THEN
         IF cfg.t5 # <<>> /\ tx[h].n5 < cfg.max5 THEN Retry5xx(now, h)
         ELSE Finish(h, FailFx(h, "error_code", m.err)) /\ UNCHANGED hist
    ELSE Unchanged

\* r: what response() returns ("ok" or the error); "*" in the model means any.
Respond(now, m, r) ==
    IF ~m.parse THEN r \in {"parse", "*"} /\ Unchanged
    ELSE IF Matching(m) = {} THEN r \in {"transaction_not_found", "*"} /\ Unchanged
    ELSE LET h == CHOOSE x \in Matching(m) : TRUE
             a == AuthError(tx[h], m)
         IN IF tx[h].st = "ended" \/ m.cls \notin {"success", "error"} THEN Unchanged
            ELSE IF a # "" THEN r \in {a, "*"} /\ Unchanged
            ELSE IF m.cls = "success" THEN r \in {"ok", "*"} /\ RespondSuccess(now, h, m)
            ELSE r \in {"ok", "*"} /\ RespondError(now, h, m)

-----------------------------------------------------------------------------
(* next *)

\* next() returns effect e (a pending one).
NextEffect(now, e) ==
    LET S == ProcessDue([tx |-> tx, fx |-> fx, armed |-> armed], now) IN
    \E i \in Firsts(S.fx) :
        /\ e = [S.fx[i] EXCEPT !.g = <<>>]
        /\ fx' = RemoveAt(S.fx, i)
        /\ tx' = IF IsTerminal(e) THEN Without(S.tx, e.h) ELSE S.tx
        /\ armed' = {d \in S.armed : d > now}
        /\ UNCHANGED <<cfg, hist>>
\* The effects next() may return now.
Returnable(now) == LET S == ProcessDue([tx |-> tx, fx |-> fx, armed |-> armed], now)
                   IN {[S.fx[i] EXCEPT !.g = <<>>] : i \in Firsts(S.fx)}

\* Nothing is pending: sleeping never passes a live deadline, and wakes at a
\* deadline that was scheduled at some time.
NextSleep(now, d) ==
    /\ fx = <<>>
    /\ \A x \in LiveDl(tx) : x > now /\ now + d <= x
    /\ d > 0
    /\ now + d \in armed
    /\ armed' = {x \in armed : x > now}
    /\ UNCHANGED <<cfg, tx, fx, hist>>

NextIdle(now) ==
    /\ fx = <<>>
    /\ Live(tx) = {}
    /\ armed' = {x \in armed : x > now}
    /\ UNCHANGED <<cfg, tx, fx, hist>>

(* Any number of transactions of a path without history, one after another, that *)
(* are refused (error response 400) at once: they leave nothing but a passed-over *)
(* deadline.                                                                      *)
Burn(now) ==
    /\ fx = <<>>
    /\ \A x \in LiveDl(tx) : x > now
    /\ armed' = {x \in armed : x > now} \cup {now + FirstWait(cfg.rto0)}
    /\ UNCHANGED <<cfg, tx, fx, hist>>

-----------------------------------------------------------------------------
InitWith(c) == cfg = c /\ tx = EmptyFn /\ fx = <<>> /\ armed = {} /\ hist = EmptyFn

(* State invariants that hold in every reachable state, whatever the callers do *)
TerminalsQueued(h) == Cardinality({i \in DOMAIN fx : fx[i].h = h /\ IsTerminal(fx[i])})
Inv ==
    /\ \A h \in DOMAIN tx :
         /\ tx[h].st = "ended" <=> TerminalsQueued(h) = 1
         /\ tx[h].st = "live" <=> TerminalsQueued(h) = 0
         /\ tx[h].sends <= cfg.rc + tx[h].n5
         /\ tx[h].n5 <= cfg.max5
         /\ tx[h].st = "live" => tx[h].dl \in armed
    /\ \A i \in DOMAIN fx : fx[i].h \in DOMAIN tx
    /\ \A i, j \in DOMAIN fx : (i < j /\ IsTerminal(fx[i])) => fx[i].h # fx[j].h
    /\ \A g, h \in DOMAIN tx : g # h => tx[g].tid # tx[h].tid
=============================================================================
