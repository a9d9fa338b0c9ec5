------------------------------ MODULE StunTrace ------------------------------
(* Recorded calls into the real STUN message layer and server, checked against *)
(* StunWire and StunServer.  Aspects selects which part of the behaviour a     *)
(* check decides, so that a deviation is charged to the property it breaks.    *)
EXTENDS StunServer, Json, IOUtils

CONSTANT Aspects

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
tvars == <<svars, l, st>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
On(a) == a \in Aspects

Counters == {"success", "error", "invalid_size", "invalid_message_type", "not_padded", "message_length_error", "magic_cookie_error",
             "invalid_attr_size", "fingerprint_not_last", "invalid_fingerprint", "invalid_fingerprint_size", "invalid_message_integrity",
             "invalid_mapped_address", "invalid_xor_mapped_address", "invalid_ip_address", "invalid_priority_size",
             "invalid_ice_controlling_size", "invalid_ice_controlled_size", "invalid_use_candidate_size", "invalid_error_code_size",
             "invalid_unknown_attributes_attr_size", "unknown_comprehension_required_attr"}
Zero == [c \in Counters |-> 0]

Expect(what) == PrintT(<<"EXPECTED", ToString(what)>>)
\* c holds, or the expected thing is printed and the event rejected
Must(c, what) == IF c THEN TRUE ELSE Expect(what) /\ FALSE

TReset == IsEvent("reset") /\ st' = Zero /\ users' = NoUsers /\ settings' = [fp |-> TRUE, hash |-> TRUE]

(* ------------------------------- parsing ---------------------------------- *)
ErrOk(p) == Ev.err = p.err \/ (p.err = "any" /\ Ev.err # "success?")
FrameOk(p) == Must(Ev.oks = (IF p.ok THEN Ev.times ELSE 0) /\ Ev.ok = p.ok /\ (p.ok \/ ErrOk(p)), [ok |-> p.ok, err |-> p.err])
AddrErr == {"unknown_addr_family", "net.invalid_address_size", "invalid_ipv4_address_size", "invalid_ipv6_address_size"}
AddrFields(m) == <<m.mapped, m.altsrv, m.xor>>
AddrOk(p) == /\ (~p.ok /\ (p.err \in AddrErr \/ "invalid_xor_mapped_address" \in p.ctr \/ "invalid_ip_address" \in p.ctr)) => Must(~Ev.ok, p.err)
             /\ (p.ok /\ Ev.ok) => Must(AddrFields(Ev.m) = AddrFields(Meaning(p)), AddrFields(Meaning(p)))
FpOk(p) == /\ (p.err = "fingerprint_not_valid") => Must(~Ev.ok, p.err)
           /\ (p.ok /\ Has(p, FP)) => Must(Ev.ok, "accepted")
           /\ (p.ok /\ Ev.ok) => Must(Ev.m.fp = Has(p, FP), Has(p, FP))
\* types of the attributes of the meaning only (C12): everything
AttrsOk(p) == (p.ok /\ Ev.ok) => Must(Ev.m = Meaning(p), Meaning(p))
Incr(cs) == [c \in Counters |-> st[c] + (IF c \in cs THEN Ev.times ELSE 0)]
\* a datagram parsed some times in a row is parsed alike each time
Alike == Ev.oks = (IF Ev.ok THEN Ev.times ELSE 0)
StatOk(p) == IF Alike /\ Ev.ok = p.ok /\ (p.ok \/ ErrOk(p)) THEN Must(Ev.st = Incr(p.ctr), p.ctr)
             ELSE Must(/\ Ev.st.success = st.success + Ev.oks
                       /\ Ev.st.error = st.error + Ev.times - Ev.oks
                       /\ \A c \in Counters : Ev.st[c] >= st[c], "one of success and error")
TypeOk(p) == (p.ok /\ Ev.ok) => Must(Ev.m.cls = p.cls /\ Ev.m.mtype = TypeOf(0, p.method), <<p.cls, p.method>>)

TParse == /\ IsEvent("parse")
          /\ LET p == Parse(Ev.d) IN
             /\ On("frame") => FrameOk(p)
             /\ On("addr") => AddrOk(p)
             /\ On("fp") => FpOk(p)
             /\ On("attrs") => AttrsOk(p)
             /\ On("stat") => StatOk(p)
             /\ On("type") => TypeOk(p)
          /\ st' = Ev.st
          /\ UNCHANGED svars

(* ------------------------------ integrity --------------------------------- *)
VerdictOf(d, p, key, mode) == IF mode = "fail" THEN IF p.mi = 0 THEN "none" ELSE "err" ELSE Verdict(d, p, key)
TValid == /\ IsEvent("valid")
          /\ On("mi") => LET p == Parse(Ev.d)
                             v == VerdictOf(Ev.d, p, Ev.key, Ev.mode)
                         IN p.ok => Must(Ev.v = v, v)
          /\ UNCHANGED <<st, svars>>

(* ------------------------------- building --------------------------------- *)
KnownVal(k, tid) == CASE k.t \in {MAPPED, ALTSRV} -> AddrVal(k.a)
                      [] k.t = XORMAPPED -> XorVal(k.a, tid)
                      [] k.t = ERRCODE -> ErrVal(k.code, k.phrase)
                      [] k.t = UNKNOWNA -> TypesVal(k.types)
                      [] OTHER -> k.v
FirstOnly(ks) == LET keep == SelectSeq([i \in DOMAIN ks |-> i], LAMBDA i : \A j \in 1..(i - 1) : ks[j].t # ks[i].t)
                 IN [n \in DOMAIN keep |-> ks[keep[n]]]
NoTrailer(ks) == SelectSeq(ks, LAMBDA k : k.t \notin {MI, FP})

\* the bytes, and what the real parser makes of them
Built(cls, method, tid, attrs, key, fp) ==
    /\ On("build") => /\ Must(Ev.ok, "built")
                      /\ Must(FramedOk(Ev.out, cls, method, tid), <<"header", EncHdr(cls, method, tid, Len(Ev.out) - 20)>>)
                      /\ Must(BuildAttrsOk(Ev.out, attrs, key, fp), <<"attributes", attrs, key, fp>>)
                      /\ Must(BuildExact(Ev.out, cls, method, tid, key, fp), <<"bytes">>)
                      /\ LET p == Parse(Ev.out) IN Must(p.ok, "spec parses it") /\ Must(Ev.pb = << Meaning(p) >>, Meaning(p))
    /\ (On("fp") /\ Ev.ok) => Must(BuildFpOk(Ev.out, fp), "fingerprint")
    /\ (On("mi") /\ Ev.ok) => Must(BuildMiOk(Ev.out, key, fp), "integrity")
    /\ (On("type") /\ Ev.ok) => Must(Len(Ev.out) >= 2 /\ R16(Ev.out, 0) = TypeOf(cls, method), TypeOf(cls, method))
    /\ (On("addr") /\ Ev.ok) =>
           LET IsAddr(a) == a.t \in {MAPPED, ALTSRV, XORMAPPED}
           IN Must(SameBag(SelectSeq(Tiles(Ev.out, 20), IsAddr), SelectSeq(attrs, IsAddr)), SelectSeq(attrs, IsAddr))

TBuild == /\ IsEvent("build")
          /\ LET ks == FirstOnly(Ev.known)
                 vals == [i \in DOMAIN ks |-> [t |-> ks[i].t, v |-> KnownVal(ks[i], Ev.tid)]]
             IN IF Ev.key # <<>> /\ Ev.mode = "fail" THEN On("build") => Must(~Ev.ok, "the hash function's error")
                ELSE Built(Ev.cls, Ev.method, Ev.tid, NoTrailer(vals) \o Ev.unknown, Ev.key, \E i \in DOMAIN ks : ks[i].t = FP)
          /\ UNCHANGED <<st, svars>>

Canon(a) == [t |-> a.t, v |-> CASE a.t \in {MAPPED, ALTSRV, XORMAPPED} -> <<0>> \o Tail(a.v)
                                [] a.t = PRIO -> SubSeq(a.v, 1, 4)
                                [] a.t \in {ICECLED, ICECLING} -> SubSeq(a.v, 1, 8)
                                [] a.t = ERRCODE -> ErrVal(ErrCode(a.v), ErrPhrase(a.v))
                                [] OTHER -> a.v]
TRebuild == /\ IsEvent("rebuild")
            /\ LET p == Parse(Ev.d)
                   known == FirstOnly(SelectSeq(p.raw, LAMBDA a : a.t \in Known))
                   attrs == NoTrailer([i \in DOMAIN known |-> Canon(known[i])]) \o UnknownOf(p)
               IN (p.ok /\ (Has(p, ERRCODE) => ErrCode(First(p, ERRCODE)[1]) < 800))
                  => Built(p.cls, p.method, p.tid, attrs, Ev.key, Has(p, FP))
            /\ UNCHANGED <<st, svars>>

(* ------------------------------ addresses --------------------------------- *)
TXor == /\ IsEvent("xor")
        /\ On("addr") => /\ Must(Ev.x = XorIp(Ev.ip, Ev.tid), XorIp(Ev.ip, Ev.tid))
                         /\ Must(Ev.back = Ev.ip /\ Ev.same, Ev.ip)
                         /\ Must(Ev.fam = (IF Len(Ev.ip) = 4 THEN 1 ELSE 2), "family")
        /\ UNCHANGED <<st, svars>>
TXview == /\ IsEvent("xview")
          /\ On("addr") => LET n == Len(Ev.v) IN
               IF Ev.f \notin {1, 2} THEN Must(~Ev.ok /\ Ev.err = "unknown_addr_family", "unknown_addr_family")
               ELSE Must(Ev.ok = (n = AddrSize(Ev.f)), AddrSize(Ev.f))
          /\ UNCHANGED <<st, svars>>

(* -------------------------------- server ---------------------------------- *)
TServer == IsEvent("server") /\ NewServer(Ev.fp, Ev.hash) /\ UNCHANGED st
TUser == IsEvent("user") /\ AddUser(Ev.name, Ev.pass) /\ UNCHANGED st

SetOf(s) == {s[i] : i \in DOMAIN s}
\* what the response bytes say was decided
\* (responses to RFC 3489 clients have no magic cookie, so no STUN parser takes them)
OutTiles == IF Len(Ev.out) < 20 THEN <<>> ELSE Tiles(Ev.out, 20)
OutHas(t) == SelectSeq(OutTiles, LAMBDA a : a.t = t)
OutCode == IF Len(Ev.out) < 20 THEN -1
           ELSE IF ClassOf(R16(Ev.out, 0)) = SUCCESS THEN 0
           ELSE IF ClassOf(R16(Ev.out, 0)) # ERROR \/ OutHas(ERRCODE) = <<>> \/ Len(OutHas(ERRCODE)[1].v) < 4 THEN -1
           ELSE ErrCode(OutHas(ERRCODE)[1].v)
DecisionOk(p, dec) ==
    /\ Must(Ev.k = dec.k, dec)
    /\ dec.k = "ignore" => Must(Ev.m = (IF dec.msg THEN << Meaning(p) >> ELSE <<>>), dec)
    /\ dec.k = "respond" =>
         /\ Must(Ev.ok /\ OutCode = dec.code, dec)
         /\ Must(Ev.m = << Meaning(p) >>, Meaning(p))
         /\ Must(Ev.auth = (dec.key # <<>>), dec)
         /\ dec.code = 420 => Must(OutHas(UNKNOWNA) # <<>> /\ SetOf(Types(OutHas(UNKNOWNA)[1].v)) = SetOf(dec.types), dec)
ContentOk(p, dec) ==
    (dec.k = "respond" /\ Ev.k = "respond") =>
        LET attrs == RespAttrs(p, dec, Ev.ep)
            fp == RespFp(p, dec)
        IN /\ Must(Ev.ok, "built")
           /\ Must(FramedOk(Ev.out, RespCls(dec), p.method, p.tid), <<"header", EncHdr(RespCls(dec), p.method, p.tid, Len(Ev.out) - 20)>>)
           /\ Must(BuildAttrsOk(Ev.out, attrs, dec.key, fp), <<"attributes", attrs, dec.key, fp>>)
           /\ Must(BuildExact(Ev.out, RespCls(dec), p.method, p.tid, dec.key, fp), "bytes")
           /\ LET o == Parse(Ev.out) IN IF p.old THEN TRUE ELSE Must(Ev.pb = << Meaning(o) >>, Meaning(o))

TProc == /\ IsEvent("proc")
         /\ LET p == Parse(Ev.d)
                dec == Decide(Ev.d, p)
            IN /\ On("decide") => DecisionOk(p, dec)
               /\ On("content") => ContentOk(p, dec)
         /\ Process /\ UNCHANGED st

TraceInit == InitServer /\ l = 1 /\ st = Zero
TraceNext == TReset \/ TParse \/ TValid \/ TBuild \/ TRebuild \/ TXor \/ TXview \/ TServer \/ TUser \/ TProc
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
