-------------------------------- MODULE IList --------------------------------
(* Intrusive lists as sequences.  An element has two links, 1 and 2; a list is  *)
(* made for one of them.  lists[k] is "none" or [link, s]; alive is the set of  *)
(* elements that exist.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES lists, alive
lvars == <<lists, alive>>

None == [link |-> 0, s |-> <<>>]
Live(k) == lists[k].link # 0
Ks == DOMAIN lists
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
\* every list of link i without element x
Unlinked(L, i, x) == [k \in DOMAIN L |-> IF L[k].link = i THEN [L[k] EXCEPT !.s = Without(@, x)] ELSE L[k]]
Rng(s) == {s[i] : i \in DOMAIN s}
In(i, x) == \E k \in Ks : lists[k].link = i /\ x \in Rng(lists[k].s)

NewList(k, i) == ~Live(k) /\ lists' = [lists EXCEPT ![k] = [link |-> i, s |-> <<>>]] /\ UNCHANGED alive
DelList(k) == Live(k) /\ lists' = [lists EXCEPT ![k] = None] /\ UNCHANGED alive
\* d is made from list k, which is empty afterwards
MoveList(d, k) == /\ ~Live(d) /\ Live(k) /\ UNCHANGED alive
                  /\ lists' = [lists EXCEPT ![d] = lists[k], ![k].s = <<>>]
\* d gives up its elements and takes those of k; assigning to itself changes nothing
AssignList(d, k) == /\ Live(d) /\ Live(k) /\ lists[d].link = lists[k].link /\ UNCHANGED alive
                    /\ lists' = IF d = k THEN lists ELSE [lists EXCEPT ![d].s = lists[k].s, ![k].s = <<>>]
NewElem(x) == x \notin alive /\ alive' = alive \cup {x} /\ UNCHANGED lists
DelElem(x) == x \in alive /\ alive' = alive \ {x} /\ lists' = Unlinked(Unlinked(lists, 1, x), 2, x)
\* y is made from x and takes its places; x is in no list afterwards
MoveElem(y, x) == /\ y \notin alive /\ x \in alive /\ alive' = alive \cup {y}
                  /\ lists' = [k \in Ks |-> [lists[k] EXCEPT !.s = [i \in DOMAIN lists[k].s |-> IF lists[k].s[i] = x THEN y ELSE lists[k].s[i]]]]
PushBack(k, x) == /\ Live(k) /\ x \in alive /\ UNCHANGED alive
                  /\ LET L == Unlinked(lists, lists[k].link, x) IN lists' = [L EXCEPT ![k].s = Append(@, x)]
PushFront(k, x) == /\ Live(k) /\ x \in alive /\ UNCHANGED alive
                   /\ LET L == Unlinked(lists, lists[k].link, x) IN lists' = [L EXCEPT ![k].s = <<x>> \o @]
PopFront(k) == Live(k) /\ lists[k].s # <<>> /\ UNCHANGED alive /\ lists' = [lists EXCEPT ![k].s = Tail(@)]
PopBack(k) == Live(k) /\ lists[k].s # <<>> /\ UNCHANGED alive /\ lists' = [lists EXCEPT ![k].s = Front(@)]
Clear(k) == Live(k) /\ UNCHANGED alive /\ lists' = [lists EXCEPT ![k].s = <<>>]
Unlink(i, x) == x \in alive /\ UNCHANGED alive /\ lists' = Unlinked(lists, i, x)

\* what can be seen of list k and of element x
ListView(L, k) == IF L[k].s = <<>> THEN <<>> ELSE << L[k].s[1], L[k].s[Len(L[k].s)] >>
InOf(L, i, x) == \E k \in DOMAIN L : L[k].link = i /\ x \in Rng(L[k].s)

\* an element is at most once in the lists of one link, and only while it exists
Sound == /\ \A k \in Ks : \A a, b \in DOMAIN lists[k].s : a # b => lists[k].s[a] # lists[k].s[b]
         /\ \A j, k \in Ks : j # k /\ lists[j].link = lists[k].link => Rng(lists[j].s) \cap Rng(lists[k].s) = {}
         /\ \A k \in Ks : Rng(lists[k].s) \subseteq alive
=============================================================================
