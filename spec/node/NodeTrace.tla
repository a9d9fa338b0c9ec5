------------------------------ MODULE NodeTrace ------------------------------
(* Recorded calls of the Node.js bindings, checked against the client's and    *)
(* the server's state machines, the parsers and the mapping of values.         *)
(* One client and one server at a time; every event has the arguments (args),  *)
(* whether the call returned (ok) and what (v), or the error thrown (err).      *)
EXTENDS ClientUDP, Bindings, Json, IOUtils


VARIABLES users, settings,   \* the server
          l,
          fp,                \* the client's use of FINGERPRINT
          sent,              \* handle -> bytes of its first SendData
          ask,               \* handle -> [key: <<>> or <<password>>, name]
          unit               \* microseconds of a unit of time
S == INSTANCE StunServer
tvars == <<vars, users, settings, l, fp, sent, ask, unit>>
cvars == <<vars, fp, sent, ask, unit>>
server == <<users, settings>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Expect(what) == PrintT(<<"EXPECTED", ToString(what)>>)
Must(c, what) == IF c THEN TRUE ELSE Expect(what) /\ FALSE
Throws(what) == Must(~Ev.ok, <<"an exception:", what>>)
A(i) == Arg(Ev.args, i)

TReset == /\ IsEvent("reset")
          /\ cfg' = DefaultIn(Ev.unit) /\ unit' = Ev.unit /\ tx' = EmptyFn /\ fx' = <<>> /\ armed' = {} /\ hist' = EmptyFn
          /\ fp' = TRUE /\ sent' = EmptyFn /\ ask' = EmptyFn
          /\ S!NewServer(TRUE, TRUE)

(* -------------------------------- functions -------------------------------- *)
TParse == /\ IsEvent("message_parse")
          /\ IF ~Is(A(1), "buf") THEN Throws("not a buffer")
             ELSE LET p == W!Parse(A(1).buf) IN
                  IF ~p.ok THEN Throws(p.err) /\ Must(Ev.err = p.err \/ p.err = "any", p.err)
                  ELSE IF ~Representable(p) THEN Throws("method")
                  ELSE Must(Ev.ok /\ MessageOk(Ev.v, p), W!Meaning(p))
          /\ UNCHANGED <<cvars, server>>

TCandidate == /\ IsEvent("candidate_parse")
              /\ IF ~Is(A(1), "str") THEN Throws("not a string")
                 ELSE LET x == I!Sdp(A(1).str) IN
                      CASE x.k = "sup" -> Must(/\ Ev.ok /\ Obj(Ev.v, {"result", "error"})
                                               /\ Ev.v.obj["error"] = Null
                                               /\ CandidateOk(Ev.v.obj["result"], x.m), x.m)
                        [] x.k = "unsup" -> Must(Ev.ok /\ Obj(Ev.v, {"result", "error"}) /\ Ev.v.obj["result"] = Null /\ Is(Ev.v.obj["error"], "str"), x)
                        [] x.k = "err" -> Throws(x.err)
                        [] OTHER -> Must(~Ev.ok \/ (Obj(Ev.v, {"result", "error"}) /\ Ev.v.obj["result"] = Null), "no candidate")
              /\ UNCHANGED <<cvars, server>>

(* --------------------------------- server ---------------------------------- *)
TServer == IsEvent("newserver") /\ Must(Ev.ok, "a server") /\ S!NewServer(TRUE, TRUE) /\ UNCHANGED cvars
TUser == /\ IsEvent("addUser")
         /\ IF Is(A(1), "str") /\ Is(A(2), "str")
            THEN Must(Ev.ok /\ Ev.v = Undefined, "undefined") /\ S!AddUser(A(1).str, A(2).str)
            ELSE Throws("arguments") /\ UNCHANGED server
         /\ UNCHANGED cvars

ResponseOk(v, p, dec, ep) ==
    /\ Obj(v, {"result", "data"})
    /\ v.obj["result"] = Str(SRespond)
    /\ Is(v.obj["data"], "buf")
    /\ LET out == v.obj["data"].buf
           withfp == S!RespFp(p, dec)
       IN /\ W!FramedOk(out, S!RespCls(dec), p.method, p.tid)
          /\ W!BuildAttrsOk(out, S!RespAttrs(p, dec, ep), dec.key, withfp)
          /\ W!BuildExact(out, S!RespCls(dec), p.method, p.tid, dec.key, withfp)
IgnoreOk(v, p, dec) ==
    /\ v.obj["result"] = Str(SIgnore)
    /\ IF dec.msg /\ Representable(p) THEN Obj(v, {"result", "message"}) /\ MessageOk(v.obj["message"], p)
       ELSE Obj(v, {"result"})
TProcess == /\ IsEvent("process")
            /\ IF ~Is(A(1), "buf") \/ ~RinfoOk(A(2)) THEN Throws("arguments")
               ELSE LET d == A(1).buf
                        p == W!Parse(d)
                        dec == S!Decide(d, p)
                        ep == <<NumOf(Prop(A(2), "port"))>> \o IpOf(Prop(A(2), "address"))
                    IN /\ Must(Ev.ok, dec)
                       /\ IF dec.k = "ignore" THEN Must(Is(Ev.v, "obj") /\ Has(Ev.v, "result") /\ IgnoreOk(Ev.v, p, dec), dec)
                          ELSE Must(ResponseOk(Ev.v, p, dec, ep), dec)
            /\ UNCHANGED <<cvars, server>>

(* --------------------------------- client ---------------------------------- *)
TClient == /\ IsEvent("newclient")
           /\ Must(Ev.ok = SettingsOk(A(1)), SettingsOk(A(1)))
           /\ fp' = IF Ev.ok THEN UseFp(A(1)) ELSE fp
           /\ UNCHANGED <<vars, sent, ask, unit, server>>

AuthOf(v) == IF Has(v, "auth") THEN [key |-> << Prop(Prop(v, "auth"), "password").str >>, name |-> << Prop(Prop(v, "auth"), "username").str >>]
             ELSE [key |-> <<>>, name |-> <<>>]
AuthId(a) == IF a.key = <<>> THEN "" ELSE ToString(a)
TCreate == /\ IsEvent("create")
           /\ IF ~RequestOk(A(1)) THEN Throws("arguments") /\ UNCHANGED cvars
              ELSE /\ Must(Ev.ok /\ Obj(Ev.v, {"value"}) /\ Is(Ev.v.obj["value"], "num"), "a handle")
                   /\ LET h == NumOf(Ev.v.obj["value"])
                          a == AuthOf(A(1))
                      IN /\ Must(h \notin DOMAIN tx, "a handle that is not in use")
                         /\ Create(Ev.t, h, Ev.tid, ToString(<<IpOf(Prop(A(1), "source")), IpOf(Prop(A(1), "target"))>>), AuthId(a), "")
                         /\ ask' = (h :> a) @@ ask
                         /\ sent' = Without(sent, h)
                   /\ UNCHANGED <<fp, unit>>
           /\ UNCHANGED server

(* The datagram of event i as the client sees it; contents are references to the event. *)
ClsName(c) == CASE c = 2 -> "success" [] c = 3 -> "error" [] c = 0 -> "request" [] OTHER -> "indication"
Ref(i) == ToString(i)
MiOf(d, p) ==
    LET M == {h \in DOMAIN tx : tx[h].tid = p.tid} IN
    IF p.mi = 0 THEN "none"
    ELSE IF M = {} THEN "bad"
    ELSE LET h == CHOOSE x \in M : TRUE IN
         IF ask[h].key # <<>> /\ W!Verdict(d, p, ask[h].key[1]) = "true" THEN tx[h].auth ELSE "bad"
Seen(i, d, p) ==
    [parse |-> p.ok, cls |-> IF p.method # BINDING THEN "foreign" ELSE ClsName(p.cls), tid |-> p.tid, mi |-> MiOf(d, p),
     ucr |-> IF p.ok /\ W!Ucr(p) # <<>> THEN Ref(i) ELSE "",
     xor |-> IF W!Has(p, W!XORMAPPED) THEN << "x" \o Ref(i) >> ELSE <<>>,
     map |-> IF W!Has(p, W!MAPPED) THEN << "m" \o Ref(i) >> ELSE <<>>,
     code |-> W!Meaning(p).code, err |-> Ref(i),
     alt |-> IF W!Has(p, W!ALTSRV) THEN << Ref(i) >> ELSE <<>>,
     ua |-> IF W!Has(p, W!UNKNOWNA) THEN << Ref(i) >> ELSE <<>>, resp |-> Ref(i)]
TResponse == /\ IsEvent("response")
             /\ IF ~Is(A(1), "buf") THEN Throws("not a buffer") /\ UNCHANGED cvars
                ELSE /\ Must(Ev.ok /\ Ev.v = Undefined, "undefined")
                     /\ LET p == W!Parse(A(1).buf) IN Respond(Ev.t, IF p.ok THEN Seen(l, A(1).buf, p) ELSE [parse |-> FALSE], "*")
                     /\ UNCHANGED <<fp, sent, ask, unit>>
             /\ UNCHANGED server

\* the datagram an effect refers to
Source(ref) == LET i == CHOOSE i \in 1..l : ref \in {Ref(i), "x" \o Ref(i), "m" \o Ref(i)} IN W!Parse(Trace[i].args[1].buf)

WireOk(h, out) ==
    LET a == ask[h]
        attrs == IF a.name = <<>> THEN <<>> ELSE << [t |-> W!USERNAME, v |-> a.name[1]] >>
    IN /\ W!FramedOk(out, 0, BINDING, tx[h].tid)
       /\ W!BuildAttrsOk(out, attrs, a.key, fp)
       /\ W!BuildExact(out, 0, BINDING, tx[h].tid, a.key, fp)
(* Times: a duration of n units in microseconds and, rounded up, milliseconds. *)
Us(n) == X!UMuls(X!WInt(n), IF unit = 1 THEN <<>> ELSE <<unit \div 1000, 1000>>).v
Ms(n) == IF unit = 1 THEN X!WInt((n + 999) \div 1000) ELSE X!UMuls(X!WInt(n), <<unit \div 1000>>).v
\* listed in known-findings.txt: only the lowest 32 bits of the round trip time
Known(id) == IOEnv.KNOWN = id /\ PrintT(<<"KNOWN", id>>)
RttOk(v, us) == IsNum(v) /\ (Num64(v) = us \/ (~Fits32(us) /\ Num64(v) = Low32(us) /\ Known("rtt-wraps")))
\* a sleep that does not fit may be cut, since waking early does no harm
SleepOk(v, ms) == Num64(v) = ms \/ (~Fits32(ms) /\ Num64(v) = Max32)
OkValue(v, e) ==
    LET p == Source(e.resp) IN
    /\ Obj(v, {"type", "result", "response"} \cup (IF e.rtt = <<>> THEN {} ELSE {"rtt_us"}))
    /\ EndpointOk(v.obj["result"], IF e.data = "x" \o e.resp THEN W!Meaning(p).xor[1] ELSE W!Meaning(p).mapped[1])
    /\ MessageOk(v.obj["response"], p)
    /\ e.rtt # <<>> => RttOk(v.obj["rtt_us"], Us(e.rtt[1]))
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN << 48 + n >> ELSE Digits(n \div 10) \o << 48 + (n % 10) >>
ReasonOk(v, e) ==
    Is(v, "str") /\
    CASE e.why = "timeout" -> v.str = STimeout
      [] e.why = "unknown_comprehension_required" -> v.str = SUcr
      [] e.why = "unknown_reported" -> v.str = SReported
      [] e.why = "alternate" -> v.str = SAlternate
      [] e.why = "error_code" -> LET m == W!Meaning(Source(e.data)) IN v.str = SStunError \o Digits(m.code[1]) \o SColon \o m.phrase[1]
      [] e.why = "error" -> Len(v.str) > Len(SErr) /\ SubSeq(v.str, 1, Len(SErr)) = SErr
FailValue(v, e) ==
    /\ Obj(v, {"type", "handle", "reason"})
    /\ Obj(v.obj["handle"], {"value"}) /\ v.obj["handle"].obj["value"] = Num(e.h)
    /\ ReasonOk(v.obj["reason"], e)

TNext == /\ IsEvent("next")
         /\ Must(Ev.ok /\ Is(Ev.v, "obj") /\ Has(Ev.v, "type"), "an effect")
         /\ LET v == Ev.v
                type == Prop(v, "type").str
            IN CASE type = SSendData ->
                      /\ Must(Obj(v, {"type", "message"}) /\ Is(v.obj["message"], "buf"), "message")
                      /\ \E e \in {x \in Returnable(Ev.t) : x.k = "send" /\ tx[x.h].tid = SubSeq(v.obj["message"].buf, 9, 20)} :
                           /\ LET out == v.obj["message"].buf IN
                              IF e.h \in DOMAIN sent THEN Must(sent[e.h] = out, "the same bytes") /\ UNCHANGED sent
                              ELSE Must(WireOk(e.h, out), ask[e.h]) /\ sent' = (e.h :> out) @@ sent
                           /\ NextEffect(Ev.t, e)
                 [] type = STransOk -> (\E e \in Returnable(Ev.t) : e.k = "ok" /\ Must(OkValue(v, e), e) /\ NextEffect(Ev.t, e)) /\ UNCHANGED sent
                 [] type = STransFail -> (\E e \in Returnable(Ev.t) : e.k = "fail" /\ FailValue(v, e) /\ NextEffect(Ev.t, e)) /\ UNCHANGED sent
                 [] type = SSleep -> /\ Must(Obj(v, {"type", "timeout_ms"}) /\ IsNum(v.obj["timeout_ms"]), "timeout")
                                     /\ \E d \in {x - Ev.t : x \in {y \in armed : y > Ev.t}} :
                                           SleepOk(v.obj["timeout_ms"], Ms(d)) /\ NextSleep(Ev.t, d)
                                     /\ UNCHANGED sent
                 [] type = SIdle -> Must(Obj(v, {"type"}), "only the type") /\ NextIdle(Ev.t) /\ UNCHANGED sent
                 [] OTHER -> FALSE
         /\ UNCHANGED <<fp, ask, unit, server>>

TraceInit == InitWith(DefaultCfg) /\ S!InitServer /\ l = 1 /\ fp = TRUE /\ sent = EmptyFn /\ ask = EmptyFn /\ unit = 1
TraceNext == TReset \/ TParse \/ TCandidate \/ TServer \/ TUser \/ TProcess \/ TClient \/ TCreate \/ TResponse \/ TNext
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceInv == Inv
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
