------------------------------ MODULE Binding ------------------------------
(* A client and a server of the library with a network between them.  The      *)
(* network may lose, duplicate, delay, reorder and redirect datagrams and       *)
(* translate source addresses: it is the set of all datagrams ever sent, and    *)
(* any of them may arrive at its destination's kind at any time, any number of  *)
(* times.  The client is ClientUDP; the server (StunServer at the level of      *)
(* credentials) knows users and has no other state.                             *)
EXTENDS ClientUDP

VARIABLES users,   \* credentials id -> id of the credentials whose password the server has for that user
          net,     \* datagrams: [to, tid, rq, m]
          heard    \* transaction id -> sources from which the server got requests of it

bvars == <<vars, users, net, heard>>

NoMsg == [parse |-> FALSE, cls |-> "", tid |-> "", mi |-> "none", ucr |-> "", xor |-> <<>>, map |-> <<>>, code |-> <<>>, err |-> "", alt |-> <<>>, ua |-> <<>>, resp |-> ""]

\* what a transaction asks with: credentials, a USERNAME without credentials, unknown comprehension-required attributes
Request(h) == [to |-> "server", tid |-> tx[h].tid, rq |-> tx[h].want, m |-> NoMsg]

ErrorAnswer(tid, code, ua) == [NoMsg EXCEPT !.parse = TRUE, !.cls = "error", !.tid = tid, !.code = <<code>>, !.ua = ua]
OkAnswer(tid, src, mi) == [NoMsg EXCEPT !.parse = TRUE, !.cls = "success", !.tid = tid, !.xor = <<src>>, !.mi = mi]

\* The server's answer to a request that came from src
Answer(p, src) ==
    LET q == p.rq IN
    IF q.ucr # "" THEN ErrorAnswer(p.tid, 420, <<q.ucr>>)
    ELSE IF q.auth = "" THEN IF q.uname THEN ErrorAnswer(p.tid, 400, <<>>) ELSE OkAnswer(p.tid, src, "none")
    ELSE IF q.auth \in DOMAIN users /\ users[q.auth] = q.auth THEN OkAnswer(p.tid, src, q.auth)
    ELSE ErrorAnswer(p.tid, 401, <<>>)

\* wording and extra attributes of an answer are the server's business
SameAnswer(m, a) == [m EXCEPT !.err = "", !.resp = ""] = a

BCreate(now, h, tid, path, auth, want) ==
    /\ want.auth = auth
    /\ Create(now, h, tid, path, auth, want)
    /\ UNCHANGED <<users, net, heard>>

BSend(now, h) ==
    /\ NextEffect(now, SendFx(h))
    /\ net' = net \cup {Request(h)}
    /\ UNCHANGED <<users, heard>>
BReturn(now, e) == NextEffect(now, e) /\ e.k # "send" /\ UNCHANGED <<users, net, heard>>
BSleep(now, d) == NextSleep(now, d) /\ UNCHANGED <<users, net, heard>>
BIdle(now) == NextIdle(now) /\ UNCHANGED <<users, net, heard>>

AddUser(a, pw) ==
    /\ users' = IF a \in DOMAIN users THEN users ELSE (a :> pw) @@ users
    /\ UNCHANGED <<vars, net, heard>>

\* A request arrives at the server from src and is answered with m.
Serve(p, src, m) ==
    /\ p \in net /\ p.to = "server"
    /\ SameAnswer(m, Answer(p, src))
    /\ net' = net \cup {[p EXCEPT !.to = "client", !.m = m]}
    /\ heard' = [t \in DOMAIN heard \cup {p.tid} |-> (IF t \in DOMAIN heard THEN heard[t] ELSE {}) \cup (IF t = p.tid THEN {src} ELSE {})]
    /\ UNCHANGED <<vars, users>>
\* Anything that is not an intact request leaves no trace in the server.
Drop == UNCHANGED bvars

\* An answer arrives at the client.
Deliver(now, p, r) ==
    /\ p \in net /\ p.to = "client"
    /\ Respond(now, p.m, r)
    /\ UNCHANGED <<users, net, heard>>
\* Anything else arrives at the client.
Foreign(now, m, r) == Respond(now, m, r) /\ UNCHANGED <<users, net, heard>>

InitBinding(c) == InitWith(c) /\ users = EmptyFn /\ net = {} /\ heard = EmptyFn
=============================================================================
