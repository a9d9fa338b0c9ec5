------------------------------ MODULE MCServer ------------------------------
(* The stateless server with small sets of users, passwords and requests.      *)
(* Requests are real datagrams built by StunWire; the byte-level decision is   *)
(* compared with a decision table over the tokens they were built from.        *)
EXTENDS StunServer, Json
CONSTANTS MaxAdds, MaxReqs, Emitting

VARIABLES hist, nadd, nreq, last
vars == <<svars, hist, nadd, nreq, last>>

Names == {"u1", "u2"}
Pws == {"p1", "p2"}
NameB(u) == IF u = "u1" THEN <<97, 108>> ELSE <<98>>
PwB(p) == IF p = "p1" THEN <<115, 101>> ELSE <<83, 101>>
Tid == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>
ClsOf(c) == CASE c = "request" -> REQUEST [] c = "indication" -> INDICATION [] c = "success" -> SUCCESS [] OTHER -> ERROR

Tok == [cls : {"request", "indication", "success", "error"}, method : {1, 3}, old : BOOLEAN,
        user : {"none", "u1", "u2"}, mi : {"none", "bad", "p1", "p2"}, unk : 0..2]
\* the classes other than request need little variety
Toks == {t \in Tok : t.cls # "request" => t.method = 1 /\ t.unk < 2 /\ t.user # "u2" /\ t.mi # "p2"}

Gram(t) ==
    LET tid == IF t.old THEN <<0, 0, 0, 1>> \o Tid ELSE Tid
        attrs == (IF t.user = "none" THEN <<>> ELSE << [t |-> USERNAME, v |-> NameB(t.user)] >>)
                 \o [k \in 1..t.unk |-> [t |-> 32512 + k, v |-> <<k>>]]
                 \o (IF t.mi = "bad" THEN << [t |-> MI, v |-> Zeros(20)] >> ELSE <<>>)
    IN Enc(ClsOf(t.cls), t.method, tid, attrs, IF t.mi \in Pws THEN << PwB(t.mi) >> ELSE <<>>, FALSE)
Grams == [t \in Toks |-> Gram(t)]
Parsed == [t \in Toks |-> Parse(Grams[t])]

Init == /\ users = NoUsers /\ settings \in [fp : BOOLEAN, hash : BOOLEAN]
        /\ hist = <<>> /\ nadd = 0 /\ nreq = 0 /\ last = <<>>
Add == /\ nadd < MaxAdds /\ nreq = 0
       /\ \E u \in Names, p \in Pws : /\ AddUser(NameB(u), PwB(p))
                                      /\ hist' = Append(hist, <<"add", u, p>>)
       /\ nadd' = nadd + 1 /\ UNCHANGED <<nreq, last>>
Req == /\ nreq < MaxReqs
       /\ \E t \in Toks :
            /\ hist' = Append(hist, <<"req", t.cls, t.method, t.old, t.user, t.mi, t.unk>>)
            /\ last' = IF Emitting THEN <<>> ELSE << [t |-> t, dec |-> Decide(Grams[t], Parsed[t])] >>
       /\ nreq' = nreq + 1 /\ Process /\ UNCHANGED nadd
Next == Add \/ Req
Spec == Init /\ [][Next]_vars
View == <<svars, nadd, nreq, last>>

\* the first password registered for a name, from the history
Registered(u) == SelectSeq(hist, LAMBDA h : h[1] = "add" /\ h[2] = u)
FirstPw(u) == Registered(u)[1][3]
FirstRegistrationCounts ==
    \A u \in Names : IF Registered(u) = <<>> THEN NameB(u) \notin DOMAIN users
                     ELSE NameB(u) \in DOMAIN users /\ users[NameB(u)] = PwB(FirstPw(u))

\* the decision table in terms of how the request was made
Table(t) ==
    IF t.old /\ t.cls # "request" THEN Ignore(FALSE)
    ELSE IF t.cls # "request" THEN Ignore(TRUE)
    ELSE IF t.unk > 0 THEN Fail(420, [k \in 1..t.unk |-> 32512 + k])
    ELSE IF (t.user = "none") # (t.mi = "none") THEN Fail(400, <<>>)
    ELSE IF t.user # "none" /\ Registered(t.user) = <<>> THEN Fail(401, <<>>)
    ELSE IF t.user # "none" /\ ~settings.hash THEN Broken
    ELSE IF t.user # "none" /\ t.mi # FirstPw(t.user) THEN Fail(401, <<>>)
    ELSE IF t.method # 1 THEN Ignore(TRUE)
    ELSE Success(IF t.user = "none" THEN <<>> ELSE << PwB(FirstPw(t.user)) >>)
DecisionTable == last # <<>> => last[1].dec = Table(last[1].t)

\* credentials are never honoured without the registered password, and an
\* answer is never sent to anything but a request
NoForgery ==
    (last # <<>> /\ last[1].dec.k = "respond") =>
        /\ last[1].t.cls = "request"
        /\ last[1].dec.key # <<>> => /\ last[1].dec.code = 0
                                     /\ last[1].t.mi = FirstPw(last[1].t.user)
        /\ (last[1].dec.code = 0 /\ last[1].t.user # "none") => last[1].dec.key # <<>>

\* every response the server may send is read back by the protocol's own parser
EP == <<4660, 1, 2, 3, 4>>
ResponseReadsBack ==
    (last # <<>> /\ last[1].dec.k = "respond" /\ ~last[1].t.old /\ settings.hash) =>
        LET p == Parsed[last[1].t]
            dec == last[1].dec
            out == Enc(RespCls(dec), p.method, p.tid, RespAttrs(p, dec, EP), dec.key, RespFp(p, dec))
            q == Parse(out)
        IN /\ q.ok /\ q.cls # REQUEST /\ q.tid = p.tid
           /\ dec.key # <<>> => Verdict(out, q, dec.key[1]) = "true"
           /\ dec.code = 0 => Meaning(q).xor = << EP >>
           /\ dec.code # 0 => Meaning(q).code = << dec.code >>

Emit == (nreq = MaxReqs) => PrintT(<<"EMIT", ToJson([fp |-> settings.fp, hash |-> settings.hash, s |-> hist])>>)
=============================================================================
