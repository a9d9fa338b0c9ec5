------------------------------- MODULE MCStun -------------------------------
(* All datagrams put together from up to MaxAttrs attribute tokens behind a    *)
(* choice of headers.  TLC checks what the specification itself must satisfy   *)
(* and prints the datagrams, which are then given to the real parser.          *)
EXTENDS StunWire, Json
CONSTANTS MaxAttrs, Headers, Tokens, Deep

VARIABLES d, n
vars == <<d, n>>

Tid == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 255>>
Tid16 == <<33, 18, 164, 65>> \o Tid          \* almost the magic cookie
Key == <<112, 119>>
\* header name -> [cls, method, tid]
Hdr(h) == CASE h = "req" -> EncHdr(REQUEST, 1, Tid, 0)
            [] h = "ind" -> EncHdr(INDICATION, 1, Tid, 0)
            [] h = "suc" -> EncHdr(SUCCESS, 1, Tid, 0)
            [] h = "err" -> EncHdr(ERROR, 4095, Tid, 0)
            [] h = "oldreq" -> EncHdr(REQUEST, 1, Tid16, 0)
            [] h = "oldsuc" -> EncHdr(SUCCESS, 1, Tid16, 0)
            [] h = "wide" -> EncHdr(REQUEST, 2730, Tid, 0)
            [] h = "top" -> <<64, 1>> \o SubSeq(EncHdr(REQUEST, 1, Tid, 0), 3, 20)

V4 == <<0, 1, 18, 52, 1, 2, 3, 4>>
V6 == <<0, 2, 18, 52, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>
Tok(t) == CASE t = "user" -> [t |-> USERNAME, v |-> <<97>>]
            [] t = "user2" -> [t |-> USERNAME, v |-> <<98, 98, 98>>]
            [] t = "soft" -> [t |-> SOFTWARE, v |-> <<>>]
            [] t = "prio" -> [t |-> PRIO, v |-> <<1, 2, 3, 4>>]
            [] t = "prio2" -> [t |-> PRIO, v |-> <<9, 9, 9, 9, 9>>]
            [] t = "prioBad" -> [t |-> PRIO, v |-> <<1, 2>>]
            [] t = "xor4" -> [t |-> XORMAPPED, v |-> V4]
            [] t = "xor6" -> [t |-> XORMAPPED, v |-> V6]
            [] t = "xorBad" -> [t |-> XORMAPPED, v |-> SubSeq(V6, 1, 8)]
            [] t = "xorShort" -> [t |-> XORMAPPED, v |-> <<0, 1>>]
            [] t = "map4" -> [t |-> MAPPED, v |-> V4]
            [] t = "map6" -> [t |-> MAPPED, v |-> <<9>> \o Tail(V6)]
            [] t = "mapBad" -> [t |-> MAPPED, v |-> <<0, 3, 1, 1, 1, 1, 1, 1>>]
            [] t = "alt4" -> [t |-> ALTSRV, v |-> V4]
            [] t = "altBad" -> [t |-> ALTSRV, v |-> SubSeq(V4, 1, 7)]
            [] t = "unkReq" -> [t |-> 32767, v |-> <<5>>]
            [] t = "unkReq2" -> [t |-> 20, v |-> <<>>]
            [] t = "unkOpt" -> [t |-> 32768, v |-> <<5, 6, 7>>]
            [] t = "code" -> [t |-> ERRCODE, v |-> <<255, 255, 252, 99, 79, 75>>]
            [] t = "codeBad" -> [t |-> ERRCODE, v |-> <<0, 0, 4>>]
            [] t = "use" -> [t |-> USECAND, v |-> <<>>]
            [] t = "useBad" -> [t |-> USECAND, v |-> <<0, 0, 0, 0>>]
            [] t = "types" -> [t |-> UNKNOWNA, v |-> <<127, 255, 128, 0>>]
            [] t = "typesBad" -> [t |-> UNKNOWNA, v |-> <<1, 2, 3>>]
            [] t = "cling" -> [t |-> ICECLING, v |-> <<255, 2, 3, 4, 5, 6, 7, 8>>]
            [] t = "clingBad" -> [t |-> ICECLING, v |-> <<1, 2, 3, 4>>]
            [] t = "cled" -> [t |-> ICECLED, v |-> <<128, 2, 3, 4, 5, 6, 7, 8>>]
            [] t = "cledBad" -> [t |-> ICECLED, v |-> <<1, 2, 3, 4, 5, 6, 7>>]
            [] t = "miBad" -> [t |-> MI, v |-> [i \in 1..20 |-> i]]
            [] t = "miShort" -> [t |-> MI, v |-> [i \in 1..19 |-> i]]
            [] t = "fpBad" -> [t |-> FP, v |-> <<1, 2, 3, 4>>]
            [] t = "fpShort" -> [t |-> FP, v |-> <<1, 2, 3>>]

SetLen(m, k) == SubSeq(m, 1, 2) \o B16(k) \o SubSeq(m, 5, Len(m))
Put(m, a) == LET x == m \o EncAttr(a.t, a.v) IN SetLen(x, Len(x) - 20)
PutTok(m, t) ==
    CASE t = "mi" -> Put(m, [t |-> MI, v |-> MacOf(m, Len(m), Key)])
      [] t = "fp" -> Put(m, [t |-> FP, v |-> WBytes(FpOf(SetLen(m, Len(m) + 8 - 20)))])
      [] t = "cut" -> SubSeq(m, 1, Len(m) - 1)              \* truncated
      [] t = "cut4" -> SetLen(SubSeq(m, 1, Len(m) - 4), Len(m) - 24)
      [] t = "len" -> SetLen(m, (Len(m) - 20) + 4)           \* length field too big
      [] t = "junk" -> m \o <<0, 0, 0, 0>>                   \* length field too small
      [] t = "odd" -> SetLen(m, (Len(m) - 20) + 1)
      [] t = "over" -> SetLen(m \o <<128, 1, 0, 5, 0, 0, 0, 0>>, Len(m) - 12)   \* attribute longer than the message
      [] OTHER -> Put(m, Tok(t))
Framing == {"cut", "cut4", "len", "junk", "odd", "over"}

Init == d \in {Hdr(h) : h \in Headers} /\ n = 0
Next == /\ n < MaxAttrs
        /\ \E t \in Tokens : /\ t \in {"cut4"} => Len(d) >= 24
                             /\ d' = PutTok(d, t)
                             /\ n' = IF t \in Framing THEN MaxAttrs ELSE n + 1
Spec == Init /\ [][Next]_vars

Emit == PrintT(<<"EMIT", ToJson(d)>>)

(* ------------------- what the specification must satisfy ------------------ *)
\* (FINGERPRINT, checked last, and duplicates included)
RoundTrip ==
    LET p == Parse(d) IN
    (p.ok /\ (Has(p, ERRCODE) => ErrCode(First(p, ERRCODE)[1]) < 800)) =>
        LET noTrailer == SelectSeq(p.raw, LAMBDA a : a.t \notin {MI, FP})
            e == Enc(p.cls, p.method, p.tid, noTrailer, <<>>, p.fp # 0)
            q == Parse(e)
        IN p.cls = REQUEST \/ ~p.old =>
           /\ q.ok
           /\ [Meaning(q) EXCEPT !.mi = <<>>] = [Meaning(p) EXCEPT !.mi = <<>>]
\* what follows MESSAGE-INTEGRITY does not change its verdict, what precedes does
IntegrityInterval ==
    LET p == Parse(d) IN
    (Deep /\ p.ok /\ p.mi # 0) =>
        LET c == SetLen(Sub(d, 0, p.mi + 24), p.mi + 4)
        IN /\ Verdict(c, Parse(c), Key) = Verdict(d, p, Key)
           /\ Verdict(d, p, Key) = "true" => \A i \in {0, 8, 19, p.mi - 1} :
                MacOf([d EXCEPT ![i + 1] = (@ + 1) % 256], p.mi, Key) # First(p, MI)[1]
\* no single-bit change of a message with FINGERPRINT is accepted with FINGERPRINT
FlipBit(m, k) == LET i == (k \div 8) + 1 IN [m EXCEPT ![i] = @ ^^ P2[k % 8]]
FingerprintGuards ==
    LET p == Parse(d) IN
    (Deep /\ p.ok /\ p.fp # 0) => \A k \in 0..(8 * Len(d) - 1) : LET q == Parse(FlipBit(d, k)) IN ~q.ok \/ ~Has(q, FP)
\* exactly one of success and error, and success exactly for accepted messages
OneCounter == LET p == Parse(d) IN /\ ("success" \in p.ctr) = p.ok
                                   /\ ("error" \in p.ctr) = ~p.ok
                                   /\ p.ok = (p.err = "")
TypeInverse == \A c \in 0..3, m \in {0, 1, 15, 16, 127, 128, 2730, 4095} :
                  LET v == TypeOf(c, m) IN v < 16384 /\ ClassOf(v) = c /\ MethodOf(v) = m
TypeInverseAll == n = 0 => /\ \A v \in 0..16383 : TypeOf(ClassOf(v), MethodOf(v)) = v
                           /\ \A c \in 0..3, m \in 0..4095 : ClassOf(TypeOf(c, m)) = c /\ MethodOf(TypeOf(c, m)) = m
=============================================================================
