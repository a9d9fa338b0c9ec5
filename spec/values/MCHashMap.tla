------------------------------ MODULE MCHashMap ------------------------------
(* Why coherence of equality and hash is what users need.  A bucketed container *)
(* keyed by representations (a content may have several) refines HashMap for    *)
(* every hash function that gives equal contents equal hashes (Coherent), and   *)
(* not for others: with Coherent = FALSE the invariant Refines is violated.     *)
EXTENDS HashMap, Json, TLC
CONSTANTS Contents, Reps, Buckets, Vals, Coherent, Depth
Keys == Contents \X Reps
VARIABLES h, tab, hist
vars == <<map, h, tab, hist>>
Equal(k, j) == k[1] = j[1]
At(k) == {e \in tab[h[k]] : Equal(e[1], k)}            \* entries found under key k
Store(k, v) == [tab EXCEPT ![h[k]] = (@ \ At(k)) \cup {<<k, v>>}]
Init == /\ map = Empty /\ hist = <<>>
        /\ h \in [Keys -> Buckets] /\ (Coherent => \A k, j \in Keys : Equal(k, j) => h[k] = h[j])
        /\ tab = [b \in Buckets |-> {}]
Log(x) == hist' = Append(hist, x)
DoPut(k, v) == Put(k[1], v) /\ tab' = Store(k, v) /\ Log(<<"put", k, v>>)
DoEmp(k, v) == Emplace(k[1], v) /\ tab' = (IF At(k) = {} THEN Store(k, v) ELSE tab) /\ Log(<<"emp", k, v>>)
DoDel(k) == Erase(k[1]) /\ tab' = [tab EXCEPT ![h[k]] = @ \ At(k)] /\ Log(<<"del", k, 0>>)
Next == /\ Len(hist) < Depth /\ UNCHANGED h
        /\ \E k \in Keys : DoDel(k) \/ \E v \in Vals : DoPut(k, v) \/ DoEmp(k, v)
Spec == Init /\ [][Next]_vars
Refines == /\ \A k \in Keys : Get(k[1]) = (IF At(k) = {} THEN <<>> ELSE <<(CHOOSE e \in At(k) : TRUE)[2]>>)
           /\ \A k \in Keys : Cardinality(At(k)) <= 1
           /\ Size = Cardinality(UNION {tab[b] : b \in Buckets})
NoHist == <<map, h, tab>>
\* for generation: one hash, histories of full length
Emit == Len(hist) = Depth => PrintT(<<"EMIT", ToJson(hist)>>)
=============================================================================
