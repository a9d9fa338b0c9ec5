------------------------------ MODULE StunWire ------------------------------
(* The STUN wire format (RFC 5389/8489, RFC 3489 requests) as the repository   *)
(* implements it: what a datagram means, which datagrams are rejected and with *)
(* which error, what a built message looks like, when MESSAGE-INTEGRITY and    *)
(* FINGERPRINT are valid, and which statistics a parse increments.             *)
(* Datagrams are sequences of bytes; offsets are counted from zero.            *)
EXTENDS Hashes, FiniteSets, TLC

MAPPED == 1  USERNAME == 6  MI == 8  ERRCODE == 9  UNKNOWNA == 10
XORMAPPED == 32  PRIO == 36  USECAND == 37
SOFTWARE == 32802  ALTSRV == 32803  FP == 32808  ICECLED == 32809  ICECLING == 32810
Known == {MAPPED, USERNAME, MI, ERRCODE, UNKNOWNA, XORMAPPED, PRIO, USECAND, SOFTWARE, ALTSRV, FP, ICECLED, ICECLING}
CompReq(t) == t < 32768

Cookie == <<33, 18, 164, 66>>
Sub(d, o, n) == SubSeq(d, o + 1, o + n)
At(d, o) == d[o + 1]
R16(d, o) == At(d, o) * 256 + At(d, o + 1)
Aligned(n) == ((n + 3) \div 4) * 4

(* ---- message type: M11..M7 C1 M6..M4 C0 M3..M0 below the two zero bits ---- *)
Bit(v, k) == (v \div P2[k]) % 2
ClassOf(v) == Bit(v, 4) + 2 * Bit(v, 8)
MethodOf(v) == (v % 16) + 16 * ((v \div 32) % 8) + 128 * ((v \div 512) % 32)
TypeOf(c, m) == (m % 16) + 16 * (c % 2) + 32 * ((m \div 16) % 8) + 256 * (c \div 2) + 512 * (m \div 128)
REQUEST == 0  INDICATION == 1  SUCCESS == 2  ERROR == 3

(* ---------------------------- attribute values ---------------------------- *)
\* [e: error token or "", c: counters incremented]
Good == [e |-> "", c |-> {}]
Bad(e, c) == [e |-> e, c |-> c \cup {"error"}]
AddrSize(fam) == IF fam = 1 THEN 4 ELSE 16
CheckValue(t, v) ==
    LET n == Len(v) IN
    CASE t \in {MAPPED, ALTSRV} ->
           IF n < 4 THEN Bad("any", {"invalid_ip_address"})
           ELSE IF v[2] \notin {1, 2} THEN Bad("unknown_addr_family", {"invalid_ip_address"})
           ELSE IF n - 4 # AddrSize(v[2]) THEN Bad("net.invalid_address_size", {"invalid_ip_address"})
           ELSE Good
      [] t = XORMAPPED ->
           IF n < 4 THEN Bad("any", {"invalid_xor_mapped_address"})
           ELSE IF v[2] \notin {1, 2} THEN Bad("unknown_addr_family", {"invalid_ip_address"})
           ELSE IF n - 4 # AddrSize(v[2])
                THEN Bad(IF v[2] = 1 THEN "invalid_ipv4_address_size" ELSE "invalid_ipv6_address_size", {"invalid_ip_address"})
           ELSE Good
      [] t = MI -> IF n # 20 THEN Bad("integrity_digest_size", {"invalid_message_integrity"}) ELSE Good
      [] t = FP -> IF n < 4 THEN Bad("fingerprint_crc_size", {"invalid_fingerprint_size"}) ELSE Good
      [] t = PRIO -> IF n < 4 THEN Bad("priority_attribute_size", {"invalid_priority_size"}) ELSE Good
      [] t = ICECLING -> IF n < 8 THEN Bad("ice_controlling_size", {"invalid_ice_controlling_size"}) ELSE Good
      [] t = ICECLED -> IF n < 8 THEN Bad("ice_controlled_size", {"invalid_ice_controlled_size"}) ELSE Good
      [] t = USECAND -> IF n # 0 THEN Bad("use_candidate_size", {"invalid_use_candidate_size"}) ELSE Good
      [] t = UNKNOWNA -> IF n % 2 # 0 THEN Bad("unknown_attributes_attribute_size", {"invalid_unknown_attributes_attr_size"}) ELSE Good
      [] t = ERRCODE -> IF n < 4 THEN Bad("error_code_attribute_size", {"invalid_error_code_size"}) ELSE Good
      [] OTHER -> Good

FirstBad(raw) ==
    LET bad == {i \in DOMAIN raw : CheckValue(raw[i].t, raw[i].v).e # ""}
    IN IF bad = {} THEN Good
       ELSE LET i == CHOOSE x \in bad : \A y \in bad : x <= y IN CheckValue(raw[i].t, raw[i].v)

(* ------------------------------ framing ----------------------------------- *)
\* Attributes from offset o on, in wire order.  Everything but FINGERPRINT that
\* follows the first MESSAGE-INTEGRITY is skipped.
RECURSIVE Walk(_, _, _, _)
Walk(d, o, raw, mi) ==
    IF o >= Len(d) THEN [e |-> "", raw |-> raw, mi |-> mi, fp |-> 0]
    ELSE IF o + 4 > Len(d) \/ o + 4 + R16(d, o + 2) > Len(d)
         THEN [e |-> "invalid_attr_size", raw |-> raw, mi |-> mi, fp |-> 0]
    ELSE LET t == R16(d, o)
             n == R16(d, o + 2)
             next == o + 4 + Aligned(n)
             a == [t |-> t, v |-> Sub(d, o + 4, n)]
         IN CASE t = FP -> IF next < Len(d) THEN [e |-> "fingerprint_is_not_last", raw |-> raw, mi |-> mi, fp |-> o]
                           ELSE [e |-> "", raw |-> Append(raw, a), mi |-> mi, fp |-> o]
              [] t = MI /\ mi = 0 -> Walk(d, next, Append(raw, a), o)
              [] t # FP /\ mi # 0 -> Walk(d, next, raw, mi)
              [] OTHER -> Walk(d, next, Append(raw, a), mi)

FpXor == <<21332, 21838>>
FpOf(before) == WXor(Crc32(before), FpXor)

Reject(e, c) == [ok |-> FALSE, err |-> e, ctr |-> c \cup {"error"}, cls |-> 0, method |-> 0, tid |-> <<>>, old |-> FALSE,
                 raw |-> <<>>, mi |-> 0, fp |-> 0]

Parse(d) ==
    IF Len(d) < 20 THEN Reject("invalid_message_size", {"invalid_size"})
    ELSE IF d[1] >= 64 THEN Reject("invalid_message_type", {"invalid_message_type"})
    ELSE IF d[4] % 4 # 0 THEN Reject("not_padded_attributes", {"not_padded"})
    ELSE IF R16(d, 2) # Len(d) - 20 THEN Reject("invalid_message_len", {"message_length_error"})
    ELSE LET ty == R16(d, 0)
             nocookie == Sub(d, 4, 4) # Cookie
         IN IF nocookie /\ ClassOf(ty) # REQUEST THEN Reject("invalid_magic_cookie", {"magic_cookie_error"})
            ELSE LET w == Walk(d, 20, <<>>, 0)
                     b == FirstBad(w.raw)
                 IN IF w.e = "invalid_attr_size" THEN Reject(w.e, {"invalid_attr_size"})
                    ELSE IF w.e # "" THEN Reject(w.e, {"fingerprint_not_last"})
                    ELSE IF b.e # "" THEN Reject(b.e, b.c)
                    ELSE IF w.fp # 0 /\ FpOf(Sub(d, 0, w.fp)) # WOf(w.raw[Len(w.raw)].v, 1)
                         THEN Reject("fingerprint_not_valid", {"invalid_fingerprint"})
                    ELSE [ok |-> TRUE, err |-> "", ctr |-> {"success"}, cls |-> ClassOf(ty), method |-> MethodOf(ty),
                          tid |-> IF nocookie THEN Sub(d, 4, 16) ELSE Sub(d, 8, 12), old |-> nocookie,
                          raw |-> w.raw, mi |-> w.mi, fp |-> w.fp]

(* ---------------------- meaning of an accepted message -------------------- *)
\* first occurrence of attribute t: <<>> or <<value>>
First(p, t) == LET s == SelectSeq(p.raw, LAMBDA a : a.t = t) IN IF s = <<>> THEN <<>> ELSE <<Head(s).v>>
Has(p, t) == First(p, t) # <<>>
Opt(o, F(_)) == IF o = <<>> THEN <<>> ELSE <<F(o[1])>>
UnknownOf(p) == SelectSeq(p.raw, LAMBDA a : a.t \notin Known)
Ucr(p) == LET s == SelectSeq(p.raw, LAMBDA a : a.t \notin Known /\ CompReq(a.t)) IN [i \in DOMAIN s |-> s[i].t]

\* address attributes: <<port>> \o address bytes
PlainAddr(v) == <<U16(v, 3)>> \o SubSeq(v, 5, Len(v))
XorMask(tid, n) == SubSeq(Cookie \o SubSeq(tid, 1, 12), 1, n)
XorIp(ip, tid) == XorBytes(ip, XorMask(tid, Len(ip)))
XorPort(p) == p ^^ 8466
XorAddr(v, tid) == <<XorPort(U16(v, 3))>> \o XorIp(SubSeq(v, 5, Len(v)), tid)
Types(v) == [i \in 1..(Len(v) \div 2) |-> U16(v, 2 * i - 1)]
ErrCode(v) == (v[3] % 8) * 100 + v[4]
ErrPhrase(v) == SubSeq(v, 5, Len(v))

Meaning(p) ==
    [cls |-> p.cls, mtype |-> TypeOf(0, p.method), tid |-> p.tid, old |-> p.old,
     mapped |-> Opt(First(p, MAPPED), PlainAddr), altsrv |-> Opt(First(p, ALTSRV), PlainAddr),
     xor |-> Opt(First(p, XORMAPPED), LAMBDA v : XorAddr(v, p.tid)),
     user |-> First(p, USERNAME), soft |-> First(p, SOFTWARE), mi |-> First(p, MI),
     prio |-> Opt(First(p, PRIO), LAMBDA v : SubSeq(v, 1, 4)),
     cling |-> Opt(First(p, ICECLING), LAMBDA v : SubSeq(v, 1, 8)),
     cled |-> Opt(First(p, ICECLED), LAMBDA v : SubSeq(v, 1, 8)),
     use |-> Has(p, USECAND), fp |-> Has(p, FP),
     types |-> Opt(First(p, UNKNOWNA), Types),
     code |-> Opt(First(p, ERRCODE), ErrCode), phrase |-> Opt(First(p, ERRCODE), ErrPhrase),
     ucr |-> Ucr(p)]

(* ------------------------------ integrity --------------------------------- *)
MiText(d, mi) == Sub(d, 0, 2) \o B16(mi + 24 - 20) \o Sub(d, 4, mi - 4)
MacOf(d, mi, key) == HmacSha1(key, MiText(d, mi))
Verdict(d, p, key) == IF p.mi = 0 THEN "none" ELSE IF MacOf(d, p.mi, key) = First(p, MI)[1] THEN "true" ELSE "false"

(* ------------------------------- building --------------------------------- *)
EncAttr(t, v) == B16(t) \o B16(Len(v)) \o v \o Zeros(Aligned(Len(v)) - Len(v))
EncHdr(cls, method, tid, n) == B16(TypeOf(cls, method)) \o B16(n) \o (IF Len(tid) = 16 THEN tid ELSE Cookie \o tid)
AddrVal(a) == <<0, IF Len(a) = 5 THEN 1 ELSE 2>> \o B16(a[1]) \o Tail(a)
XorVal(a, tid) == <<0, IF Len(a) = 5 THEN 1 ELSE 2>> \o B16(XorPort(a[1])) \o XorIp(Tail(a), tid)
ErrVal(code, phrase) == <<0, 0, code \div 100, code % 100>> \o phrase
TypesVal(ts) == FoldLeft(LAMBDA acc, t : acc \o B16(t), <<>>, ts)

\* A canonical message: attributes in the given order, then MESSAGE-INTEGRITY, then FINGERPRINT.
Enc(cls, method, tid, attrs, key, fp) ==
    LET body == FoldLeft(LAMBDA acc, a : acc \o EncAttr(a.t, a.v), <<>>, attrs)
        m0 == EncHdr(cls, method, tid, 0) \o body
        body1 == IF key = <<>> THEN body ELSE body \o EncAttr(MI, MacOf(m0, Len(m0), key[1]))
        n1 == Len(body1)
        m1 == EncHdr(cls, method, tid, n1 + 8) \o body1
    IN IF fp THEN m1 \o EncAttr(FP, WBytes(FpOf(m1))) ELSE EncHdr(cls, method, tid, n1) \o body1

\* The attributes of message d as they stand on the wire (d known to be framed correctly).
RECURSIVE Tiles(_, _)
Tiles(d, o) ==
    IF o >= Len(d) THEN <<>>
    ELSE IF o + 4 + R16(d, o + 2) > Len(d) THEN << [t |-> -1, v |-> <<>>] >>
    ELSE << [t |-> R16(d, o), v |-> Sub(d, o + 4, R16(d, o + 2))] >> \o Tiles(d, o + 4 + Aligned(R16(d, o + 2)))
Count(s, a) == Cardinality({i \in DOMAIN s : s[i] = a})
SameBag(s, u) == Len(s) = Len(u) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(u, s[i])

\* Is `out` a correct encoding of the message?  The order of the attributes before
\* MESSAGE-INTEGRITY and FINGERPRINT is not specified.
FramedOk(out, cls, method, tid) ==
    /\ Len(out) >= 20 /\ Len(out) % 4 = 0
    /\ Sub(out, 0, 20) = EncHdr(cls, method, tid, Len(out) - 20)
Trailer(tiles, key, fp) ==
    LET n == Len(tiles) - (IF key = <<>> THEN 0 ELSE 1) - (IF fp THEN 1 ELSE 0)
    IN [n |-> n, ok |-> /\ n >= 0
                        /\ fp => tiles[Len(tiles)].t = FP
                        /\ key # <<>> => tiles[n + 1].t = MI]
BuildAttrsOk(out, attrs, key, fp) ==
    LET tiles == Tiles(out, 20)
        tr == Trailer(tiles, key, fp)
    IN tr.ok /\ SameBag(SubSeq(tiles, 1, tr.n), attrs)
BuildMiOk(out, key, fp) ==
    LET mi == Len(out) - (IF fp THEN 8 ELSE 0) - 24
    IN key # <<>> => mi >= 20 /\ Sub(out, mi, 24) = EncAttr(MI, MacOf(out, mi, key[1]))
BuildFpOk(out, fp) ==
    fp => LET o == Len(out) - 8 IN o >= 20 /\ Sub(out, o, 8) = EncAttr(FP, WBytes(FpOf(Sub(out, 0, o))))
\* rebuilding from scratch with the attributes in their wire order gives the same bytes
\* (so padding bytes are zero and the header length is right)
BuildExact(out, cls, method, tid, key, fp) ==
    LET tiles == Tiles(out, 20)
        tr == Trailer(tiles, key, fp)
    IN tr.ok /\ out = Enc(cls, method, tid, SubSeq(tiles, 1, tr.n), key, fp)
=============================================================================
