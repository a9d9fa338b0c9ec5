------------------------------- MODULE MCClock -------------------------------
(* All pairs of time points and all advances on a small circle.                *)
EXTENDS Clock, TLC, Json
VARIABLES a, b, n
vars == <<a, b, n>>
P == 0..(M - 1)
Init == a \in P /\ b \in P /\ n = 0
Next == n' \in -(M + 3)..(M + 3) /\ UNCHANGED <<a, b>> /\ n = 0
Spec == Init /\ [][Next]_vars

Antipode == (a - b) % M = Half
Trichotomy == IF Antipode THEN After(a, b) /\ Before(a, b) /\ a # b
              ELSE /\ After(a, b) => ~Before(a, b) /\ a # b
                   /\ Before(a, b) => a # b
                   /\ After(a, b) \/ Before(a, b) \/ a = b
Mirror == After(a, b) = Before(b, a)
SignAgrees == ~Antipode => /\ (Diff(a, b) > 0) = After(a, b)
                           /\ (Diff(a, b) < 0) = Before(a, b)
                           /\ Diff(a, b) = -Diff(b, a)
Lossless == (n > -Half /\ n < Half) => /\ Diff(Advance(a, n), a) = n
                                       /\ (n > 0) = After(Advance(a, n), a)
                                       /\ (n < 0) = Before(Advance(a, n), a)
Additive == Advance(Advance(a, n), b) = Advance(a, n + b)
Returns == Advance(b, Diff(a, b)) = a
Split == /\ n = D * Trunc(n, D) + Rest(n, D)
         /\ Rest(n, D) < D /\ -D < Rest(n, D)
         /\ Rest(n, D) * n >= 0
Emit == PrintT(<<"EMIT", ToJson(<<a, b, n>>)>>)
=============================================================================
