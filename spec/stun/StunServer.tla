----------------------------- MODULE StunServer -----------------------------
(* The stateless STUN server (RFC 5389 section 7.3.1, 10.1.2): its state is    *)
(* the user database and its settings; processing a datagram changes nothing.  *)
EXTENDS StunWire

VARIABLES users,     \* user name (bytes) -> password (bytes); the first registration of a name counts
          settings   \* [fp: BOOLEAN, hash: BOOLEAN]  (hash = FALSE: the hash function fails)
svars == <<users, settings>>

NoUsers == [x \in {} |-> <<>>]

Ignore(msg) == [k |-> "ignore", msg |-> msg, code |-> 0, types |-> <<>>, key |-> <<>>]
Fail(code, types) == [k |-> "respond", msg |-> TRUE, code |-> code, types |-> types, key |-> <<>>]
Success(key) == [k |-> "respond", msg |-> TRUE, code |-> 0, types |-> <<>>, key |-> key]
Broken == [k |-> "error", msg |-> FALSE, code |-> 0, types |-> <<>>, key |-> <<>>]

BINDING == 1
Served(p, key) == IF p.method # BINDING THEN Ignore(TRUE) ELSE Success(key)

\* The decision table
Decide(d, p) ==
    IF ~p.ok THEN Ignore(FALSE)
    ELSE IF p.cls # REQUEST THEN Ignore(TRUE)
    ELSE IF Ucr(p) # <<>> THEN Fail(420, Ucr(p))
    ELSE IF Has(p, USERNAME) # Has(p, MI) THEN Fail(400, <<>>)
    ELSE IF Has(p, USERNAME) THEN
         LET u == First(p, USERNAME)[1] IN
         IF u \notin DOMAIN users THEN Fail(401, <<>>)
         ELSE IF ~settings.hash THEN Broken
         ELSE IF Verdict(d, p, users[u]) # "true" THEN Fail(401, <<>>)
         ELSE Served(p, <<users[u]>>)
    ELSE Served(p, <<>>)

\* Attributes of the response, besides MESSAGE-INTEGRITY and FINGERPRINT
RespAttrs(p, dec, ep) ==
    IF dec.code = 0
    THEN << IF p.old THEN [t |-> MAPPED, v |-> AddrVal(ep)] ELSE [t |-> XORMAPPED, v |-> XorVal(ep, p.tid)] >>
    ELSE << [t |-> ERRCODE, v |-> ErrVal(dec.code, <<>>)] >>
         \o (IF dec.code = 420 THEN << [t |-> UNKNOWNA, v |-> TypesVal(dec.types)] >> ELSE <<>>)
RespCls(dec) == IF dec.code = 0 THEN SUCCESS ELSE ERROR
RespFp(p, dec) == dec.code = 0 /\ settings.fp /\ ~p.old

InitServer == users = NoUsers /\ settings = [fp |-> TRUE, hash |-> TRUE]
NewServer(fp, hash) == users' = NoUsers /\ settings' = [fp |-> fp, hash |-> hash]
AddUser(n, pw) == /\ users' = IF n \in DOMAIN users THEN users ELSE (n :> pw) @@ users
                  /\ UNCHANGED settings
Process == UNCHANGED svars
=============================================================================
