------------------------------- MODULE MCStream -------------------------------
(* All token streams of up to T tokens with all histories of up to K reads.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS T, K
VARIABLES toks, pos, hist
vars == <<toks, pos, hist>>
Toks == {"a", "b"}
Ops == {"req", "opt", "lita", "bindgood", "bindbad"}
Init == toks \in UNION {[1..k -> Toks] : k \in 0..T} /\ pos = 1 /\ hist = <<>>
Next == /\ Len(hist) < K /\ \E o \in Ops : hist' = Append(hist, o)
        /\ pos' = (IF pos > Len(toks) THEN pos ELSE pos + 1) /\ UNCHANGED toks
Spec == Init /\ [][Next]_vars
\* every token is handed out once, in order
InOrder == pos = 1 + (IF Len(hist) < Len(toks) THEN Len(hist) ELSE Len(toks))
Emit == Len(hist) = K => PrintT(<<"EMIT", ToJson(<<toks, hist>>)>>)
=============================================================================
