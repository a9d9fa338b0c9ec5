------------------------------ MODULE PrefProof ------------------------------
(* The priority formula, for all preferences: different preferences give        *)
(* different priorities, ordered first by type, then local, then component      *)
(* preference; it is zero exactly for the all-zero preference and below 2^31.   *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  t1,
  \* @type: Int;
  l1,
  \* @type: Int;
  c1,
  \* @type: Int;
  t2,
  \* @type: Int;
  l2,
  \* @type: Int;
  c2
Val(t, l, c) == 16777216 * t + 256 * l + c
Init == t1 \in Int /\ l1 \in Int /\ c1 \in Int /\ t2 \in Int /\ l2 \in Int /\ c2 \in Int
        /\ 0 <= t1 /\ t1 <= 126 /\ 0 <= t2 /\ t2 <= 126 /\ 0 <= l1 /\ l1 <= 65535 /\ 0 <= l2 /\ l2 <= 65535
        /\ 0 <= c1 /\ c1 <= 255 /\ 0 <= c2 /\ c2 <= 255
Next == UNCHANGED <<t1, l1, c1, t2, l2, c2>>
Laws == /\ (Val(t1, l1, c1) = Val(t2, l2, c2)) = (t1 = t2 /\ l1 = l2 /\ c1 = c2)
        /\ (Val(t1, l1, c1) < Val(t2, l2, c2)) = (t1 < t2 \/ (t1 = t2 /\ (l1 < l2 \/ (l1 = l2 /\ c1 < c2))))
        /\ (Val(t1, l1, c1) = 0) = (t1 = 0 /\ l1 = 0 /\ c1 = 0)
        /\ Val(t1, l1, c1) < 2147483648
=============================================================================
