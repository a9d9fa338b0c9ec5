-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of bytes: character classes, decimal numbers, cutting    *)
(* and joining at a delimiter.                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsDigit(c) == c \in 48..57
IsIceChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 43 \/ c = 47
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerS(s) == [i \in DOMAIN s |-> Lower(s[i])]
EqNoCase(s, t) == LowerS(s) = LowerS(t)
All(s, P(_)) == \A i \in DOMAIN s : P(s[i])

\* decimal value of a text of digits as <<high, low 16 bits>>; up to ten digits
DecStep(w, c) == LET l == w[2] * 10 + (c - 48) IN <<w[1] * 10 + l \div 65536, l % 65536>>
Dec(s) == FoldLeft(DecStep, <<0, 0>>, s)

\* position of the first c in s, 0 if there is none
First(s, c) == FoldLeft(LAMBDA a, i : IF a = 0 /\ s[i] = c THEN i ELSE a, 0, [i \in DOMAIN s |-> i])
Drop(s, n) == SubSeq(s, n + 1, Len(s))

\* the pieces between the delimiters: n delimiters give n + 1 pieces
Pieces(s, c) == LET r == FoldLeft(LAMBDA a, x : IF x = c THEN <<Append(a[1], a[2]), <<>>>> ELSE <<a[1], Append(a[2], x)>>, << <<>>, <<>> >>, s)
                IN Append(r[1], r[2])
\* what splitting at all delimiters returns: a final empty piece is left out
SplitAll(s, c) == LET p == Pieces(s, c) IN IF p[Len(p)] = <<>> THEN Front(p) ELSE p
Split(s, c) == LET p == First(s, c) IN IF p = 0 THEN <<>> ELSE << SubSeq(s, 1, p - 1), Drop(s, p) >>
Join(ps, sep) == IF ps = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, x : acc \o sep \o x, ps[1], Tail(ps))
RemovePrefix(s, n) == IF n > Len(s) THEN <<>> ELSE << Drop(s, n) >>
=============================================================================
