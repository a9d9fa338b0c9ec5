------------------------------ MODULE ClockProof ------------------------------
(* The laws of MCClock for the real circle of 2^64 microseconds (and any rest  *)
(* of a division by D), proved by Apalache over mathematical integers.         *)
EXTENDS Clock
VARIABLES
    \* @type: Int;
    a,
    \* @type: Int;
    b,
    \* @type: Int;
    n
CInit == M = 18446744073709551616 /\ D \in Int /\ D >= 1
Init == a \in Int /\ b \in Int /\ n \in Int /\ a >= 0 /\ a < M /\ b >= 0 /\ b < M
Next == UNCHANGED <<a, b, n>>
Antipode == (a - b) % M = Half
Trichotomy == IF Antipode THEN After(a, b) /\ Before(a, b) /\ a # b
              ELSE /\ After(a, b) => ~Before(a, b) /\ a # b
                   /\ Before(a, b) => a # b
                   /\ After(a, b) \/ Before(a, b) \/ a = b
Mirror == After(a, b) = Before(b, a)
SignAgrees == ~Antipode => /\ (Diff(a, b) > 0) = After(a, b)
                           /\ (Diff(a, b) < 0) = Before(a, b)
                           /\ Diff(a, b) = -Diff(b, a)
Lossless == (n > -Half /\ n < Half) => /\ Diff(Advance(a, n), a) = n
                                       /\ (n > 0) = After(Advance(a, n), a)
                                       /\ (n < 0) = Before(Advance(a, n), a)
Returns == Advance(b, Diff(a, b)) = a
Split == /\ n = D * Trunc(n, D) + Rest(n, D)
         /\ Rest(n, D) < D /\ -D < Rest(n, D)
         /\ (Rest(n, D) > 0 => n > 0) /\ (Rest(n, D) < 0 => n < 0)
Laws == Trichotomy /\ Mirror /\ SignAgrees /\ Lossless /\ Returns /\ Split
=============================================================================
