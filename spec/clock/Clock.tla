-------------------------------- MODULE Clock --------------------------------
(* Time points: a circle of M microseconds.  A time point advances by whole    *)
(* microseconds; is_after / is_before / difference refer to the shorter way    *)
(* around.  The converter turns readings of a clock with D ticks per           *)
(* microsecond into time points, keeping the rest of each step.                *)
(* Here M and D are parameters and numbers are mathematical integers; the      *)
(* trace specification has the same definitions on 64-bit words.               *)
EXTENDS Integers
CONSTANTS
    \* @type: Int;
    M,
    \* @type: Int;
    D
Half == M \div 2

After(a, b) == (b - a) % M >= Half
Before(a, b) == (a - b) % M >= Half
Signed(x) == IF x % M >= Half THEN (x % M) - M ELSE x % M
Diff(a, b) == Signed(a - b)
Advance(a, n) == (a + n) % M
\* division rounding towards zero
Trunc(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
Rest(n, d) == n - d * Trunc(n, d)
=============================================================================
