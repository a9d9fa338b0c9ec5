------------------------------ MODULE Converter ------------------------------
(* The chrono clock converter as a state machine over unbounded integers: the  *)
(* clock jumps anywhere at each step; cur is the total of whole microseconds   *)
(* taken over so far and rest what is left.  Inv is inductive: Apalache proves *)
(* it for every reading and every D; TLC explores small readings and emits     *)
(* reading sequences for the real converter.                                   *)
EXTENDS Clock
VARIABLES
    \* @type: Int;
    prev,
    \* @type: Int;
    cur,
    \* @type: Int;
    rest,
    \* @type: Int;
    old,
    \* @type: Int;
    oldcur,
    \* @type: Bool;
    mono
vars == <<prev, cur, rest, old, oldcur, mono>>

\* @type: (Int) => Bool;
Start(t) == /\ prev = t /\ cur = Trunc(t, D) /\ rest = Rest(t, D) /\ old = t /\ oldcur = Trunc(t, D)
            /\ mono = (t >= 0)
\* @type: (Int) => Bool;
Read(t) == /\ prev' = t
           /\ cur' = cur + Trunc(rest + t - prev, D)
           /\ rest' = Rest(rest + t - prev, D)
           /\ old' = prev /\ oldcur' = cur
           /\ mono' = (mono /\ t >= prev /\ t >= 0)
CInit == D \in Int /\ D >= 1 /\ M = 16
InitAny == \E t \in Int : Start(t)
NextAny == \E t \in Int : Read(t)

\* nothing is lost or gained; conversion error below one microsecond
Exact == D * cur + rest = prev
Close == rest < D /\ -D < rest
Floor == mono => rest >= 0                      \* then cur = floor(prev / D)
Order == (prev >= old => cur >= oldcur) /\ (prev = old => cur = oldcur) /\ (prev <= old => cur <= oldcur)
Inv == D >= 1 /\ Exact /\ Close /\ Floor /\ Order
\* any state satisfying the invariant (for the induction step)
InitInv == /\ prev \in Int /\ cur \in Int /\ rest \in Int /\ old \in Int /\ oldcur \in Int /\ mono \in BOOLEAN
           /\ Inv
=============================================================================
