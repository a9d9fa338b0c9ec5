-------------------------------- MODULE Hmac --------------------------------
(* The calls of the hash function that an HMAC consists of, as a machine: the   *)
(* key is hashed if it is longer than the block, then the inner and the outer   *)
(* hash are taken; the function may fail at any call, which ends it.  A fresh   *)
(* function is built as it is called (any function is possible).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS B, Bytes, Outs, KeyLens, MsgLens, Parts
VARIABLES key, msg, parts, fn, ph, k1, inner, res, fail
vars == <<key, msg, parts, fn, ph, k1, inner, res, fail>>
OutsV == {<<0>>, <<1>>}
Strs(N) == UNION {[1..n -> Bytes] : n \in N}
Pad(k, x) == [i \in 1..B |-> x + (IF i <= Len(k) THEN k[i] ELSE 0)]
Init == /\ key \in Strs(KeyLens) /\ msg \in Strs(MsgLens) /\ parts \in Parts /\ fn = <<>> /\ ph = "key" /\ k1 = <<>> /\ inner = <<>> /\ res = <<>> /\ fail = 0
Known(x) == \E i \in DOMAIN fn : fn[i][1] = x
Val(x) == fn[CHOOSE i \in DOMAIN fn : fn[i][1] = x][2]
\* a call: a known input gives the known output, a new one any output or a failure
Call(x, Set(_), next) ==
    IF Known(x) THEN Set(Val(x)) /\ ph' = next /\ UNCHANGED <<fn, res, fail>>
    ELSE \/ \E o \in Outs : fn' = Append(fn, <<x, o>>) /\ Set(o) /\ ph' = next /\ UNCHANGED <<res, fail>>
         \/ ph' = "end" /\ res' = <<>> /\ fail' = Len(fn) + 1 /\ UNCHANGED <<fn, k1, inner>>
SetKey(o) == k1' = o /\ UNCHANGED inner
SetInner(o) == inner' = o /\ UNCHANGED k1
Key == /\ ph = "key" /\ UNCHANGED <<key, msg, parts>>
       /\ IF Len(key) > B THEN Call(key, SetKey, "inner")
          ELSE k1' = key /\ ph' = "inner" /\ UNCHANGED <<fn, inner, res, fail>>
Inner == ph = "inner" /\ UNCHANGED <<key, msg, parts>> /\ Call(Pad(k1, 10) \o msg, SetInner, "outer")
Outer == /\ ph = "outer" /\ UNCHANGED <<key, msg, parts, k1, inner>>
         /\ LET x == Pad(k1, 20) \o inner IN
            IF Known(x) THEN ph' = "end" /\ res' = Val(x) /\ UNCHANGED <<fn, fail>>
            ELSE \/ \E o \in Outs : fn' = Append(fn, <<x, o>>) /\ ph' = "end" /\ res' = o /\ UNCHANGED fail
                 \/ ph' = "end" /\ res' = <<>> /\ fail' = Len(fn) + 1 /\ UNCHANGED fn
Next == Key \/ Inner \/ Outer
Spec == Init /\ [][Next]_vars
H(x) == IF Known(x) THEN Val(x) ELSE <<>>
K0 == IF Len(key) > B THEN H(key) ELSE key
\* the end is the formula of RFC 2104 over the function built, or a failure
Formula == ph = "end" => IF fail # 0 THEN res = <<>> ELSE res = H(Pad(K0, 20) \o H(Pad(K0, 10) \o msg))
\* never more calls than needed, and no output that the blocks could mix up
Calls == Len(fn) <= (IF Len(key) > B THEN 3 ELSE 2)
Emit == ph = "end" => PrintT(<<"EMIT", ToJson([k |-> Len(key), m |-> Len(msg), p |-> parts, f |-> fail])>>)
=============================================================================
