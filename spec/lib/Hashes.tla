------------------------------- MODULE Hashes -------------------------------
(* The hash functions the repository relies on, written from their standards: *)
(* SHA-1 (FIPS 180-4), MD5 (RFC 1321), HMAC (RFC 2104) and the    *)
(* CRC-32 of ISO 3309 / RFC 5389 (reflected polynomial EDB88320).             *)
EXTENDS Words

(* ---- Merkle-Damgard padding; messages are shorter than 2^16 bytes here ---- *)
PadTo64(d, be) ==
    LET n == Len(d)
        z == (119 - (n % 64)) % 64
        h == (n * 8) \div 65536
        l == (n * 8) % 65536
        len8 == IF be THEN Zeros(4) \o B16(h) \o B16(l)
                ELSE <<l % 256, l \div 256, h % 256, h \div 256>> \o Zeros(4)
    IN d \o <<128>> \o Zeros(z) \o len8

(* ------------------------------- SHA-1 ------------------------------------ *)
K1 == << <<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>> >>

SchedStep(w, t) == Append(w, WRotl(WXor(WXor(w[t - 3], w[t - 8]), WXor(w[t - 14], w[t - 16])), 2, 32768))
Sched1(d, o) == FoldLeft(SchedStep, [i \in 1..16 |-> WOf(d, o + 4 * (i - 1))], [i \in 1..64 |-> i + 16])
F1(t, b, c, d) == IF t <= 20 THEN WXor(d, WAnd(b, WXor(c, d)))
                  ELSE IF t > 40 /\ t <= 60 THEN WOr(WAnd(b, c), WAnd(d, WOr(b, c)))
                  ELSE WXor(b, WXor(c, d))
Round1(s, t, w) ==
    << WAdd(WAdd(WAdd(WRotl(s[1], 32, 2048), F1(t, s[2], s[3], s[4])), WAdd(s[5], w)), K1[((t - 1) \div 20) + 1]),
       s[1], WRotr(s[2], 4, 16384), s[3], s[4] >>
Idx80 == [i \in 1..80 |-> i]
Block1(h, d, o) ==
    LET w == Sched1(d, o)
        s == FoldLeft(LAMBDA acc, t : Round1(acc, t, w[t]), h, Idx80)
    IN [i \in 1..5 |-> WAdd(h[i], s[i])]
H1 == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>> >>
Flat(ws) == FoldLeft(LAMBDA acc, w : acc \o WBytes(w), <<>>, ws)
Sha1(m) ==
    LET d == PadTo64(m, TRUE)
    IN Flat(FoldLeft(LAMBDA h, k : Block1(h, d, 64 * (k - 1) + 1), H1, [k \in 1..(Len(d) \div 64) |-> k]))

(* -------------------------------- MD5 ------------------------------------- *)
K5 == <<
  <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>,
  <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>,
  <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>,
  <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>,
  <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>,
  <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>,
  <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>,
  <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>,
  <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>,
  <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>,
  <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>,
  <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
  <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>,
  <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>,
  <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>,
  <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>> >>
S5 == << 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21 >>
P2 == [i \in 0..16 |-> 2^i]
RotN(a, n) == IF n < 16 THEN WRotl(a, P2[n], P2[16 - n])
              ELSE IF n = 16 THEN WSwap(a) ELSE WRotl(WSwap(a), P2[n - 16], P2[32 - n])
G5(t) == IF t < 16 THEN t ELSE IF t < 32 THEN (5 * t + 1) % 16 ELSE IF t < 48 THEN (3 * t + 5) % 16 ELSE (7 * t) % 16
F5(t, b, c, d) == IF t < 16 THEN WOr(WAnd(b, c), WAnd(WNot(b), d))
                  ELSE IF t < 32 THEN WOr(WAnd(d, b), WAnd(WNot(d), c))
                  ELSE IF t < 48 THEN WXor(b, WXor(c, d)) ELSE WXor(c, WOr(b, WNot(d)))
WLe(d, i) == <<d[i + 3] * 256 + d[i + 2], d[i + 1] * 256 + d[i]>>
Round5(s, t, d, o) ==
    LET f == WAdd(WAdd(F5(t, s[2], s[3], s[4]), s[1]), WAdd(K5[t + 1], WLe(d, o + 4 * G5(t))))
    IN << s[4], WAdd(s[2], RotN(f, S5[t + 1])), s[2], s[3] >>
Idx64 == [i \in 1..64 |-> i - 1]
Block5(h, d, o) ==
    LET s == FoldLeft(LAMBDA acc, t : Round5(acc, t, d, o), h, Idx64)
    IN [i \in 1..4 |-> WAdd(h[i], s[i])]
H5 == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>
FlatLe(ws) == FoldLeft(LAMBDA acc, w : acc \o <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>, <<>>, ws)
Md5(m) ==
    LET d == PadTo64(m, FALSE)
    IN FlatLe(FoldLeft(LAMBDA h, k : Block5(h, d, 64 * (k - 1) + 1), H5, [k \in 1..(Len(d) \div 64) |-> k]))

(* ------------------------------- HMAC ------------------------------------- *)
Pad64(k, x) == [i \in 1..64 |-> (IF i <= Len(k) THEN k[i] ELSE 0) ^^ x]
HmacWith(H(_), key, m) ==
    LET k == IF Len(key) > 64 THEN H(key) ELSE key
    IN H(Pad64(k, 92) \o H(Pad64(k, 54) \o m))
HmacSha1(key, m) == HmacWith(Sha1, key, m)

(* ------------------------------- CRC-32 ----------------------------------- *)
CrcPoly == <<60856, 33568>>
CrcStep8(c) == LET Sh(x) == IF x[2] % 2 = 1 THEN WXor(WShr(x, 2, 32768), CrcPoly) ELSE WShr(x, 2, 32768)
               IN Sh(Sh(Sh(Sh(Sh(Sh(Sh(Sh(c))))))))
CrcTable == [i \in 0..255 |-> CrcStep8(<<0, i>>)]
CrcByte(c, b) == WXor(CrcTable[(c[2] ^^ b) % 256], WShr(c, 256, 256))
Crc32(d) == WNot(FoldLeft(CrcByte, <<65535, 65535>>, d))
=============================================================================
