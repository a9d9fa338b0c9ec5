------------------------------- MODULE Murmur -------------------------------
(* Why a hash of all of the content is worth having: the scheme of MurmurHash64A over words of any size W (a power of    *)
(* two), of B-valued bytes.  Every step is a bijection of the state, so contents of one length that differ within one    *)
(* word never have the same hash, and neither has a content under two seeds.  TLC checks that for small words;           *)
(* SpreadTrace holds the hashes of the real library against the same.                                                    *)
EXTENDS Integers, Sequences, Bitwise, TLC
CONSTANTS W, B, N, M, Shift, MaxLen     \* word values, byte values, bytes in a word, the odd factor, 2^r, longest content
ASSUME M % 2 = 1
Xo(v, w) == v ^^ w
RECURSIVE Number(_)
Number(bs) == IF bs = <<>> THEN 0 ELSE Head(bs) + B * Number(Tail(bs))
Scramble(v) == LET u == (v * M) % W IN (Xo(u, u \div Shift) * M) % W
RECURSIVE Blocks(_, _)
Blocks(h, bs) == IF Len(bs) < N
                 THEN LET t == IF bs = <<>> THEN h ELSE (Xo(h, Number(bs)) * M) % W
                          u == (Xo(t, t \div Shift) * M) % W
                      IN Xo(u, u \div Shift)
                 ELSE Blocks((Xo(h, Scramble(Number(SubSeq(bs, 1, N)))) * M) % W, SubSeq(bs, N + 1, Len(bs)))
Hash(bs, seed) == Blocks(Xo(seed, (Len(bs) * M) % W), bs)

VARIABLES x, y, s
Contents == UNION {[1..n -> 0..(B - 1)] : n \in 0..MaxLen}
\* two contents of one length that differ within one word
Block(bs, k) == SubSeq(bs, k * N + 1, IF (k + 1) * N < Len(bs) THEN (k + 1) * N ELSE Len(bs))
OneWord(c, d) == \E k \in 0..(MaxLen \div N) : /\ Block(c, k) # Block(d, k)
                                               /\ \A j \in 0..(MaxLen \div N) : j # k => Block(c, j) = Block(d, j)
Init == x \in Contents /\ y \in [1..Len(x) -> 0..(B - 1)] /\ s \in {0, 1, W - 1}
Next == FALSE /\ UNCHANGED <<x, y, s>>
Spec == Init /\ [][Next]_<<x, y, s>>
Spreads == /\ OneWord(x, y) => Hash(x, s) # Hash(y, s)
           /\ \A t \in 0..(W - 1) : t # s => Hash(x, t) # Hash(x, s)
=============================================================================
