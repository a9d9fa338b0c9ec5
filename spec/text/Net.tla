-------------------------------- MODULE Net --------------------------------
(* Domain names, IP addresses and ports as texts.                              *)
EXTENDS Text

(* ------------------------------- domain names ------------------------------ *)
IsLD(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 95
IsLDH(c) == IsLD(c) \/ c = 45
IsLabel(s) == s # <<>> /\ All(s, IsLDH) /\ s[1] # 45 /\ s[Len(s)] # 45
IsName(s) == LET p == SplitAll(s, 46) IN p # <<>> /\ \A i \in DOMAIN p : IsLabel(p[i])
\* length of the longest name at the start of s, 0 if there is none
Longest(s) == LET N == {n \in 1..Len(s) : IsName(SubSeq(s, 1, n))} IN IF N = {} THEN 0 ELSE CHOOSE n \in N : \A m \in N : m <= n
\* the same, label by label (NetModel checks that it is)
RunLen(s, P(_)) == LET B == {i \in DOMAIN s : ~P(s[i])} IN IF B = {} THEN Len(s) ELSE (CHOOSE i \in B : \A j \in B : i <= j) - 1
LabelLen(s) == IF s = <<>> \/ ~IsLD(s[1]) THEN 0
               ELSE LET r == RunLen(s, IsLDH)
                    IN CHOOSE i \in 1..r : IsLD(s[i]) /\ \A j \in (i + 1)..r : ~IsLD(s[j])
RECURSIVE NameLen(_)
NameLen(s) == LET n == LabelLen(s) IN
    IF n = 0 THEN 0 ELSE IF n < Len(s) /\ s[n + 1] = 46 THEN n + 1 + NameLen(Drop(s, n + 1)) ELSE n

FqdnParse(s) == LET n == NameLen(s) IN
    IF n = 0 THEN [ok |-> FALSE, err |-> "fqdn_invalid_label_expect_letter"]
    ELSE [ok |-> TRUE, v |-> SubSeq(s, 1, n), rest |-> Drop(s, n)]
FqdnFrom(s) == LET p == FqdnParse(s) IN
    IF ~p.ok THEN p ELSE IF p.rest # <<>> THEN [ok |-> FALSE, err |-> "fqdn_not_fully_parsed"] ELSE [ok |-> TRUE, v |-> s]

(* -------------------------------- addresses -------------------------------- *)
IsHex(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE Lower(c) - 87
SmallDec(s) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, s)
IsOctet(s) == Len(s) \in 1..3 /\ All(s, IsDigit) /\ (Len(s) > 1 => s[1] # 48) /\ SmallDec(s) <= 255
IsV4(s) == Len(s) <= 15 /\ LET p == Pieces(s, 46) IN Len(p) = 4 /\ \A i \in 1..4 : IsOctet(p[i])
V4Bytes(s) == LET p == Pieces(s, 46) IN [i \in 1..4 |-> SmallDec(p[i])]

IsGroup(s) == Len(s) \in 1..4 /\ All(s, IsHex)
GroupBytes(s) == LET v == FoldLeft(LAMBDA a, c : 16 * a + HexVal(c), 0, s) IN <<v \div 256, v % 256>>
\* a list of groups, the last of which may be an IPv4 address (two groups' worth): <<>> or the bytes in a tuple
Groups(s, tail4) ==
    IF s = <<>> THEN << <<>> >>
    ELSE LET p == Pieces(s, 58)
             n == Len(p)
             four == tail4 /\ IsV4(p[n])
             heads == IF four THEN n - 1 ELSE n
         IN IF \A i \in 1..heads : IsGroup(p[i])
            THEN << FoldLeft(LAMBDA a, i : a \o GroupBytes(p[i]), <<>>, [i \in 1..heads |-> i]) \o (IF four THEN V4Bytes(p[n]) ELSE <<>>) >>
            ELSE <<>>
DoubleColon(s) == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
V6At(s, i) == LET a == Groups(SubSeq(s, 1, i - 1), FALSE)
                  b == Groups(Drop(s, i + 1), TRUE)
              IN IF a = <<>> \/ b = <<>> THEN <<>>
                 ELSE LET n == Len(a[1]) + Len(b[1])
                      IN IF n > 14 THEN <<>> ELSE << a[1] \o [k \in 1..(16 - n) |-> 0] \o b[1] >>
V6(s) == IF Len(s) > 45 THEN <<>>
         ELSE IF DoubleColon(s) = {} THEN LET g == Groups(s, TRUE) IN IF g # <<>> /\ Len(g[1]) = 16 THEN g ELSE <<>>
         ELSE LET C == {i \in DoubleColon(s) : V6At(s, i) # <<>>} IN IF C = {} THEN <<>> ELSE V6At(s, CHOOSE i \in C : TRUE)
IpFrom(s) == IF IsV4(s) THEN [ok |-> TRUE, v |-> V4Bytes(s)]
             ELSE LET g == V6(s) IN IF g # <<>> THEN [ok |-> TRUE, v |-> g[1]] ELSE [ok |-> FALSE, err |-> "ip_address_parse_error"]

(* ---------------------------------- ports ---------------------------------- *)
PortFrom(s) == IF Len(s) \in 1..5 /\ All(s, IsDigit) /\ SmallDec(s) <= 65535 THEN [ok |-> TRUE, v |-> SmallDec(s)]
               ELSE [ok |-> FALSE, err |-> "invalid_port_value"]
=============================================================================
