------------------------------- MODULE Residue -------------------------------
(* What a client must remember, and how much that is.                          *)
(*                                                                             *)
(* A client remembers three things: its live transactions, the points of time  *)
(* it is to act at (a transaction arms a deadline when it is created and with   *)
(* every retransmission; a deadline may stay behind when its transaction ends   *)
(* before it, but not longer than until it passes), and for a limited time      *)
(* what it learnt of the paths it was used on.  However many transactions there *)
(* have been, these are never more than the numbers below, which only depend on *)
(* how many transactions are live together, how close they follow each other    *)
(* and the settings.  MCResidue checks that on all histories of a small client; *)
(* MemTrace holds the heap of the real client, measured in runs of many         *)
(* thousand transactions, against the same numbers.                             *)
EXTENDS Integers, FiniteSets

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* together: transactions live at once; arms: deadlines a transaction arms in its life; wait: the longest time a deadline
\* is ahead; gap: the time from the end of some transactions to the beginning of the next; hist: how long a path is known;
\* paths: how many there are (0: a new one every time)
Armed(together, arms, wait, gap) == together * arms * (wait \div gap + 2)
Known(together, paths, hist, gap) ==
    LET recent == together * (hist \div gap + 2) IN IF paths = 0 THEN recent ELSE Min({paths, recent})

CONSTANTS Together, Arms, Wait, Gap, Hist, Paths, End, NewPaths, Eager
VARIABLES now, live, armed, known, ended, fresh
vars == << now, live, armed, known, ended, fresh >>
\* live: [id, path, arms left]; armed: [id, n, at]; known: [path, at] with the time of its last update; ended: since when nothing is live
Init == now = 0 /\ live = {} /\ armed = {} /\ known = {} /\ ended = 0 - Gap /\ fresh = 0
\* transactions begin together, when none is live and the gap has passed
Begin == /\ live = {} /\ now - ended >= Gap /\ now < End
         /\ \E n \in 1..Together : \E p \in [1..n -> IF NewPaths THEN {0} ELSE 1..Paths] : \E w \in [1..n -> 1..Wait] :
              /\ live' = {[id |-> fresh + i, path |-> IF NewPaths THEN fresh + i ELSE p[i], left |-> Arms - 1] : i \in 1..n}
              /\ armed' = armed \union {[id |-> fresh + i, n |-> Arms, at |-> now + w[i]] : i \in 1..n}
              /\ fresh' = fresh + n
         /\ UNCHANGED << now, known, ended >>
Again == /\ \E t \in live, w \in 1..Wait :
              /\ t.left > 0
              /\ live' = (live \ {t}) \union {[t EXCEPT !.left = @ - 1]}
              /\ armed' = armed \union {[id |-> t.id, n |-> t.left, at |-> now + w]}
         /\ UNCHANGED << now, known, ended, fresh >>
\* an outcome; some of them tell something of the path.  What is too old is forgotten then: always (Eager), or, which
\* is not enough, only when the path was known before
Outcome == /\ \E t \in live : \E learns \in BOOLEAN :
                /\ live' = live \ {t}
                /\ LET old == \E k \in known : k.path = t.path
                       k2 == {k \in known : k.path # t.path} \union {[path |-> t.path, at |-> now]}
                   IN known' = IF ~learns THEN known ELSE IF Eager \/ old THEN {k \in k2 : now - k.at <= Hist} ELSE k2
                /\ ended' = IF live' = {} THEN now ELSE ended
           /\ UNCHANGED << now, armed, fresh >>
Pass == /\ now < End /\ now' = now + 1 /\ armed' = {a \in armed : a.at > now'} /\ UNCHANGED << live, known, ended, fresh >>
Next == Begin \/ Again \/ Outcome \/ Pass
Spec == Init /\ [][Next]_vars

Bounded == /\ Cardinality(live) <= Together
           /\ Cardinality(armed) <= Armed(Together, Arms, Wait, Gap)
           /\ Cardinality(known) <= Known(Together, IF NewPaths THEN 0 ELSE Paths, Hist, Gap)
=============================================================================
