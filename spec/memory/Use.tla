-------------------------------- MODULE Use --------------------------------
(* What handling one input asks for: the pieces of the input are appended to containers that grow by doubling, and  *)
(* the containers are handed on, moved (Copying = FALSE) or copied at every step (TRUE). The memory asked for stays *)
(* within PerPiece for every piece only in the first case, however long the input.                                  *)
EXTENDS Integers
CONSTANTS Max,       \* pieces in the longest input
          Item,      \* what is kept for a piece
          Own,       \* what a piece asks for itself (its value, a place in a map)
          Passes,    \* containers the pieces go through (raw, parsed, the set, the answer)
          Copying
VARIABLES n, cap, asked
vars == <<n, cap, asked>>
Init == n = 0 /\ cap = 0 /\ asked = 0
Grown == IF n < cap THEN cap ELSE IF cap = 0 THEN 1 ELSE 2 * cap
Append == /\ n < Max
          /\ n' = n + 1
          /\ cap' = Grown
          /\ asked' = asked + Own + (IF Grown > cap THEN Passes * Item * Grown ELSE 0) + (IF Copying THEN Item * (n + 1) ELSE 0)
Next == Append \/ (n = Max /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
PerPiece == Own + 4 * Passes * Item
Proportional == asked <= PerPiece * n
=============================================================================
