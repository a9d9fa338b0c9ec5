-------------------------------- MODULE MCList --------------------------------
(* Every operation in every state of a few lists and elements; for each of these  *)
(* transitions TLC prints one history that ends with it.                          *)
EXTENDS IList, TLC, Json
CONSTANTS Lists, Elems, Links, MaxLen
VARIABLE hist
vars == <<lists, alive, hist>>
Op(o) == hist' = Append(hist, o)
Init == lists = [k \in Lists |-> None] /\ alive = {} /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E k \in Lists : \/ \E i \in Links : NewList(k, i) /\ Op(<<"NL", k, i>>)
                               \/ DelList(k) /\ Op(<<"DL", k>>)
                               \/ PopFront(k) /\ Op(<<"PF", k>>)
                               \/ PopBack(k) /\ Op(<<"PB", k>>)
                               \/ Clear(k) /\ Op(<<"CL", k>>)
                               \/ \E d \in Lists : (MoveList(d, k) /\ Op(<<"ML", d, k>>)) \/ (AssignList(d, k) /\ Op(<<"AL", d, k>>))
                               \/ \E x \in Elems : (PushBack(k, x) /\ Op(<<"pb", k, x>>)) \/ (PushFront(k, x) /\ Op(<<"pf", k, x>>))
           \/ \E x \in Elems : \/ NewElem(x) /\ Op(<<"NE", x>>)
                               \/ DelElem(x) /\ Op(<<"DE", x>>)
                               \/ \E i \in Links : Unlink(i, x) /\ Op(<<"RM", i, x>>)
                               \/ \E y \in Elems : MoveElem(y, x) /\ Op(<<"ME", y, x>>)
Spec == Init /\ [][Next]_vars
View == lvars
Emit == PrintT(<<"EMIT", ToJson(hist')>>)
=============================================================================
