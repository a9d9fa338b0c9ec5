-------------------------------- MODULE Ice --------------------------------
(* ICE candidate tokens, preferences and the SDP candidate attribute           *)
(* (RFC 8445, RFC 8839).                                                       *)
EXTENDS Net, TLC

Bad(e) == [ok |-> FALSE, err |-> e]
Good(v) == [ok |-> TRUE, v |-> v]

FoundationFrom(s) == IF Len(s) \notin 1..32 THEN Bad("invalid_foundation_length")
                     ELSE IF ~All(s, IsIceChar) THEN Bad("invalid_foundation_char") ELSE Good(s)
ComponentFrom(s) == IF Len(s) \notin 1..3 THEN Bad("invalid_component_id_length")
                    ELSE IF ~All(s, IsDigit) THEN Bad("invalid_component_id_char")
                    ELSE IF SmallDec(s) > 256 THEN Bad("invalid_component_id_value") ELSE Good(SmallDec(s))
\* values are words (TLC integers have 32 bits)
PriorityFrom(s) == IF Len(s) \notin 1..10 THEN Bad("invalid_priority_length")
                   ELSE IF ~All(s, IsDigit) \/ Dec(s) = <<0, 0>> \/ Dec(s)[1] > 65535 THEN Bad("invalid_priority_value") ELSE Good(Dec(s))
SUdp == <<117, 100, 112>>
TransportFrom(s) == IF EqNoCase(s, SUdp) THEN Good(SUdp) ELSE Bad("unknown_transport_type")
SHost == <<104, 111, 115, 116>>
SSrflx == <<115, 114, 102, 108, 120>>
SPrflx == <<112, 114, 102, 108, 120>>
SRelay == <<114, 101, 108, 97, 121>>
Types == {SHost, SSrflx, SPrflx, SRelay}
TypeFrom(s) == IF LowerS(s) \in Types THEN Good(LowerS(s)) ELSE Bad("unknown_candidate_type")
\* a candidate address: kind and value
AddrFrom(s) == LET i == IpFrom(s) IN
    IF i.ok THEN Good(<<"ip", i.v>>) ELSE IF FqdnFrom(s).ok THEN Good(<<"fqdn", s>>) ELSE Bad("ip_address_parse_error")

(* ------------------------------- preferences -------------------------------- *)
\* unsigned arguments as words
TypePref(w) == IF w[1] = 0 /\ w[2] <= 126 THEN Good(w[2]) ELSE Bad("invalid_type_preference_value")
LocalPref(w) == IF w[1] = 0 THEN Good(w[2]) ELSE Bad("invalid_local_preference_value")
CompPref(w) == IF w[1] = 0 /\ w[2] <= 255 THEN Good(w[2]) ELSE Bad("invalid_component_preference_value")
CompFromU(w) == IF w[1] = 0 /\ w[2] \in 1..256 THEN Good(w[2]) ELSE Bad("invalid_component_id_value")
RecType(t) == CASE t = SHost -> 126 [] t = SPrflx -> 110 [] t = SSrflx -> 100 [] OTHER -> 0
RecComp(id) == 256 - id
\* 2^24 * type + 2^8 * local + component, as a word
PriorityWord(t, l, c) == <<t * 256 + l \div 256, (l % 256) * 256 + c>>
Priority(t, l, c) == LET w == PriorityWord(t, l, c) IN IF w = <<0, 0>> THEN Bad("invalid_priority_value") ELSE Good(w)

(* ---------------------------- candidate attribute --------------------------- *)
SPrefix == <<99, 97, 110, 100, 105, 100, 97, 116, 101, 58>>
STyp == <<116, 121, 112>>
SRaddr == <<114, 97, 100, 100, 114>>
SRport == <<114, 112, 111, 114, 116>>
SP == 32
Missing == Bad("no_required_token")
\* result of F on the i-th token
At(toks, i, F(_)) == IF i > Len(toks) THEN Missing ELSE F(toks[i])

\* the name/value pairs from token k on: [raddr, rport: <<>> or <<result>>, exts: sequence of pairs, odd: an extension without value]
RECURSIVE PairsFrom(_, _)
PairsFrom(toks, k) ==
    IF k > Len(toks) THEN [raddr |-> <<>>, rport |-> <<>>, exts |-> <<>>, odd |-> FALSE]
    ELSE LET r == PairsFrom(toks, k + 2)
         IN IF toks[k] = SRaddr THEN (IF r.raddr = <<>> THEN [r EXCEPT !.raddr = << At(toks, k + 1, AddrFrom) >>] ELSE r)
            ELSE IF toks[k] = SRport THEN (IF r.rport = <<>> THEN [r EXCEPT !.rport = << At(toks, k + 1, PortFrom) >>] ELSE r)
            ELSE IF k + 1 > Len(toks) THEN [r EXCEPT !.odd = TRUE]
            ELSE [r EXCEPT !.exts = << << toks[k], toks[k + 1] >> >> \o @]

Opt(m) == IF m = <<>> THEN Good(<<>>) ELSE IF m[1].ok THEN Good(<< m[1].v >>) ELSE m[1]

SdpFields(toks) ==
    LET typ == Len(toks) >= 7 /\ toks[7] = STyp
        type == IF Len(toks) < 7 THEN Missing ELSE IF ~typ THEN Bad("expected_token_missed") ELSE At(toks, 8, TypeFrom)
        ps == PairsFrom(toks, IF typ THEN 9 ELSE 8)
    IN [fs |-> << At(toks, 1, FoundationFrom), At(toks, 2, ComponentFrom), At(toks, 3, TransportFrom), At(toks, 4, PriorityFrom),
                  At(toks, 5, AddrFrom), At(toks, 6, PortFrom), type, Opt(ps.raddr), Opt(ps.rport) >>,
        odd |-> ps.odd, exts |-> ps.exts,
        present |-> typ /\ Len(toks) >= 8 /\ \A i \in {3, 5, 8} : toks[i] # <<>>]

(* What the parser may do with a text: "sup" with the candidate, "unsup",      *)
(* "err" with the error; "no": anything but a candidate.                       *)
Sdp(s) ==
    IF ~IsPrefix(SPrefix, s) THEN [k |-> "err", err |-> "invalid_attr_prefix"]
    ELSE LET x == SdpFields(SplitAll(Drop(s, Len(SPrefix)), SP))
             f == x.fs
             badI == {i \in 1..9 : ~f[i].ok}
             unknown == badI # {} /\ badI \subseteq {3, 5, 7} /\ x.present
         IN IF badI = {} /\ ~x.odd
            THEN [k |-> "sup", m |-> [f |-> f[1].v, c |-> f[2].v, t |-> f[3].v, p |-> f[4].v, a |-> f[5].v, port |-> f[6].v, y |-> f[7].v,
                                      ra |-> f[8].v, rp |-> f[9].v, x |-> x.exts]]
            ELSE IF badI = {} THEN [k |-> "err", err |-> "no_required_token"]
            ELSE IF unknown /\ ~x.odd THEN [k |-> "unsup"]
            ELSE IF ~x.odd /\ f[3].ok /\ f[5].ok /\ (f[7].ok \/ f[7].err # "unknown_candidate_type")
                 THEN [k |-> "err", err |-> f[CHOOSE i \in badI : \A j \in badI : i <= j].err]
            ELSE [k |-> "no"]
=============================================================================
