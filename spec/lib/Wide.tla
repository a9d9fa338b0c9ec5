-------------------------------- MODULE Wide --------------------------------
(* 64-bit two's complement numbers as four 16-bit limbs, most significant      *)
(* first (TLC integers have 32 bits).                                          *)
EXTENDS Integers, Sequences

L == 65536
WZero == <<0, 0, 0, 0>>
WOne == <<0, 0, 0, 1>>
\* k in 0..2^31-1
WInt(k) == <<0, 0, k \div L, k % L>>

Add64(a, b) ==
    LET s4 == a[4] + b[4]
        s3 == a[3] + b[3] + s4 \div L
        s2 == a[2] + b[2] + s3 \div L
        s1 == a[1] + b[1] + s2 \div L
    IN <<s1 % L, s2 % L, s3 % L, s4 % L>>
Not64(a) == [i \in 1..4 |-> L - 1 - a[i]]
Neg64(a) == Add64(Not64(a), WOne)
Sub64(a, b) == Add64(a, Neg64(b))
IsNeg(a) == a[1] >= 32768
Abs64(a) == IF IsNeg(a) THEN Neg64(a) ELSE a           \* as an unsigned number
\* unsigned comparison
ULess(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
ULeq(a, b) == a = b \/ ULess(a, b)
\* signed comparison
Flip(a) == <<(a[1] + 32768) % L, a[2], a[3], a[4]>>
SLess(a, b) == ULess(Flip(a), Flip(b))
SLeq(a, b) == a = b \/ SLess(a, b)

\* unsigned product with k in 0..32767: <<carry out, low 64 bits>>
UMul(a, k) ==
    LET p4 == a[4] * k
        p3 == a[3] * k + p4 \div L
        p2 == a[2] * k + p3 \div L
        p1 == a[1] * k + p2 \div L
    IN <<p1 \div L, <<p1 % L, p2 % L, p3 % L, p4 % L>>>>
\* product with the factors of the sequence ks: [ok: no overflow, v: low 64 bits]
RECURSIVE UMuls(_, _)
UMuls(a, ks) == IF ks = <<>> THEN [ok |-> TRUE, v |-> a]
                ELSE LET p == UMul(a, Head(ks))
                         r == UMuls(p[2], Tail(ks))
                     IN [ok |-> p[1] = 0 /\ r.ok, v |-> r.v]
\* signed product, modulo 2^64, and whether it fits
SMuls(a, ks) == LET m == UMuls(Abs64(a), ks) IN IF IsNeg(a) THEN Neg64(m.v) ELSE m.v
SFits(a, ks) == LET m == UMuls(Abs64(a), ks) IN m.ok /\ m.v[1] < 32768

\* n = q * (product of ks) + r with |r| < product and r of the sign of n (or zero):
\* q is n divided, rounded towards zero, and r the rest
IsTruncDiv(n, ks, q, r) ==
    LET m == UMuls(Abs64(q), ks)
        one == UMuls(WOne, ks)
    IN /\ m.ok /\ ULeq(m.v, Abs64(n))
       /\ n = Add64(SMuls(q, ks), r)
       /\ ULess(Abs64(r), one.v)
       /\ r = WZero \/ IsNeg(r) = IsNeg(n)
=============================================================================
