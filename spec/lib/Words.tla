------------------------------- MODULE Words -------------------------------
(* 32-bit words as <<high 16 bits, low 16 bits>> (TLC integers are 32 bit     *)
(* signed), bytes as 0..255 and byte strings as sequences of bytes.           *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

W(h, l) == <<h, l>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
WAdd(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
\* rotation to the left by n, 0 < n < 16, with p = 2^n and q = 2^(16-n)
WRotl(a, p, q) == <<((a[1] % q) * p) + (a[2] \div q), ((a[2] % q) * p) + (a[1] \div q)>>
WSwap(a) == <<a[2], a[1]>>
\* rotation to the right by n, 0 < n < 16, p = 2^n, q = 2^(16-n)
WRotr(a, p, q) == <<((a[2] % p) * q) + (a[1] \div p), ((a[1] % p) * q) + (a[2] \div p)>>
\* logical shift to the right by n, 0 < n < 16
WShr(a, p, q) == <<a[1] \div p, ((a[1] % p) * q) + (a[2] \div p)>>

WBytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>      \* big endian
WOf(d, i) == <<d[i] * 256 + d[i + 1], d[i + 2] * 256 + d[i + 3]>>
U16(d, i) == d[i] * 256 + d[i + 1]                                        \* 1-based
B16(v) == <<v \div 256, v % 256>>
Zeros(n) == [i \in 1..n |-> 0]
XorBytes(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]
=============================================================================
