------------------------------ MODULE TextTrace ------------------------------
(* Recorded calls of the real text functions (character classes, splitting,    *)
(* token streams, domain names, addresses, ports, candidate tokens and         *)
(* attribute lines), checked against Text, Net and Ice.                        *)
EXTENDS Ice, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, toks, pos
tvars == <<l, toks, pos>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Expect(what) == PrintT(<<"EXPECTED", ToString(what)>>)
Must(c, what) == IF c THEN TRUE ELSE Expect(what) /\ FALSE

\* the event carries ok with v, or err
Same(r) == Must(Ev.ok = r.ok /\ (IF r.ok THEN Ev.v = r.v ELSE Ev.err = r.err), r)

(* --------------------------- calls without state --------------------------- *)
Pure ==
    CASE Ev.e = "cls" -> Must(Ev.alpha = IsAlpha(Ev.c) /\ Ev.digit = IsDigit(Ev.c) /\ Ev.ice = IsIceChar(Ev.c), <<IsAlpha(Ev.c), IsDigit(Ev.c), IsIceChar(Ev.c)>>)
      [] Ev.e = "eq" -> Must(Ev.r = EqNoCase(Ev.a, Ev.b), EqNoCase(Ev.a, Ev.b))
      [] Ev.e = "split" -> Must(Ev.r = Split(Ev.s, Ev.sep), Split(Ev.s, Ev.sep))
      [] Ev.e = "splitall" -> Must(Ev.r = SplitAll(Ev.s, Ev.sep), SplitAll(Ev.s, Ev.sep))
      [] Ev.e = "join" -> Must(Ev.r = Join(Ev.ps, Ev.sep), Join(Ev.ps, Ev.sep))
      [] Ev.e = "rmp" -> Must(Ev.r = RemovePrefix(Ev.s, Ev.n), RemovePrefix(Ev.s, Ev.n))
      [] Ev.e = "fqdn" -> Same(FqdnFrom(Ev.s))
      [] Ev.e = "fqdnp" -> LET p == FqdnParse(Ev.s) IN Same(p) /\ (p.ok => Must(Ev.rest = p.rest, p.rest))
      [] Ev.e = "ip" -> Same(IpFrom(Ev.s))
      \* an address made from bytes, its text, and the text parsed back
      [] Ev.e = "ipshow" -> IF Len(Ev.b) = Ev.size
                            THEN /\ Must(Ev.ok /\ Ev.v = Ev.b, "the bytes are kept")
                                 /\ Must(LET p == IpFrom(Ev.s) IN p.ok /\ p.v = Ev.b, <<"the text denotes the bytes", Ev.b>>)
                                 /\ Must(Ev.back, "the text parses back to an equal address")
                            ELSE Must(~Ev.ok /\ Ev.err = "invalid_address_size", "invalid_address_size")
      [] Ev.e = "port" -> Same(PortFrom(Ev.s))
      [] Ev.e = "portu" -> Must(Ev.v = Ev.n, Ev.n)
      [] Ev.e = "found" -> Same(FoundationFrom(Ev.s))
      [] Ev.e = "comp" -> Same(ComponentFrom(Ev.s))
      [] Ev.e = "compu" -> Same(CompFromU(Ev.n))
      \* hint: a value the result is compared with (the class has no accessor)
      [] Ev.e = "prio" -> LET p == PriorityFrom(Ev.s) IN
                          Must(Ev.ok = p.ok /\ (IF p.ok THEN Ev.same = (Ev.hint = p.v) ELSE Ev.err = p.err), p)
      [] Ev.e = "priou" -> Must(Ev.ok = (Ev.n # <<0, 0>>) /\ (IF Ev.ok THEN Ev.same = (Ev.hint = Ev.n) ELSE Ev.err = "invalid_priority_value"), Ev.n)
      [] Ev.e = "trans" -> Same(TransportFrom(Ev.s))
      [] Ev.e = "ctype" -> Same(TypeFrom(Ev.s))
      \* the candidate address: what it is, its value, and its text, which denotes the same
      [] Ev.e = "caddr" -> Same(AddrFrom(Ev.s)) /\ (Ev.ok => Must(AddrFrom(Ev.t) = AddrFrom(Ev.s), <<"text", AddrFrom(Ev.s)>>))
      [] Ev.e = "tpref" -> Same(TypePref(Ev.n))
      [] Ev.e = "lpref" -> Same(LocalPref(Ev.n))
      [] Ev.e = "cpref" -> Same(CompPref(Ev.n))
      [] Ev.e = "rect" -> Must(Ev.v = RecType(Ev.t), RecType(Ev.t))
      [] Ev.e = "recc" -> Must(Ev.v = RecComp(Ev.id), RecComp(Ev.id))
      [] Ev.e = "pref" -> LET p == Priority(Ev.t, Ev.l, Ev.c) IN
                          Must(Ev.ok = p.ok /\ (IF p.ok THEN Ev.same = (Ev.hint = p.v) ELSE Ev.err = p.err), p)
      [] Ev.e = "sdp" -> LET x == Sdp(Ev.s) IN
                         CASE x.k = "sup" -> /\ Must(Ev.k = "sup", x)
                                             /\ Must(LET m == x.m IN Ev.f = m.f /\ Ev.c = m.c /\ Ev.t = m.t /\ Ev.same = (Ev.hint = m.p)
                                                        /\ Ev.a = m.a /\ Ev.port = m.port /\ Ev.y = m.y /\ Ev.ra = m.ra /\ Ev.rp = m.rp /\ Ev.x = m.x, x.m)
                           [] x.k = "unsup" -> Must(Ev.k = "unsup", x)
                           [] x.k = "err" -> Must(Ev.k = "err" /\ Ev.err = x.err, x)
                           [] OTHER -> Must(Ev.k \in {"err", "unsup"}, "no candidate")
      [] OTHER -> FALSE
TPure == l <= Len(Trace) /\ Ev.e \notin {"reset", "stream", "req", "opt", "lit", "bind"} /\ l' = l + 1 /\ UNCHANGED <<toks, pos>> /\ Pure

(* ------------------------------- token streams ----------------------------- *)
AtEnd == pos > Len(toks)
Took == toks' = toks /\ pos' = IF AtEnd THEN pos ELSE pos + 1
NoToken == Must(~Ev.ok /\ Ev.err = "no_required_token", "no_required_token")
TReset == IsEvent("reset") /\ toks' = <<>> /\ pos' = 1
TStream == IsEvent("stream") /\ toks' = Ev.toks /\ pos' = 1
TReq == IsEvent("req") /\ Took /\ IF AtEnd THEN NoToken ELSE Must(Ev.ok /\ Ev.v = toks[pos], toks[pos])
TOpt == IsEvent("opt") /\ Took /\ LET r == IF AtEnd THEN <<>> ELSE << toks[pos] >> IN Must(Ev.r = r, r)
TLit == IsEvent("lit") /\ Took
        /\ IF AtEnd THEN NoToken
           ELSE IF toks[pos] = Ev.s THEN Must(Ev.ok, "a match")
           ELSE Must(~Ev.ok /\ Ev.err = "expected_token_missed", "expected_token_missed")
\* the function is called with the token, once; its result is the result
TBind == IsEvent("bind") /\ Took
         /\ IF AtEnd THEN NoToken /\ Must(Ev.calls = <<>>, "the function is not called")
            ELSE /\ Must(Ev.calls = << toks[pos] >>, <<"one call with", toks[pos]>>)
                 /\ Must(Ev.ok = Ev.good /\ (IF Ev.good THEN Ev.v = Len(toks[pos]) ELSE Ev.err = "invalid_port_value"), "the result of the function")

TraceInit == l = 1 /\ toks = <<>> /\ pos = 1
TraceNext == TPure \/ TReset \/ TStream \/ TReq \/ TOpt \/ TLit \/ TBind
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
