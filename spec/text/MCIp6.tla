-------------------------------- MODULE MCIp6 --------------------------------
(* IPv6 texts by structure: a groups, possibly "::", b groups, possibly an      *)
(* IPv4 tail; which of them are addresses is stated by counting.                *)
EXTENDS Net, TLC, Json
VARIABLES a, b, dc, four, sty
vars == <<a, b, dc, four, sty>>
Grp(i) == CASE sty = 0 -> <<48 + (i % 10)>> [] sty = 1 -> <<48, 48, 97 + (i % 6), 70>> [] OTHER -> <<102, 102, 102, 102>>
Tail4 == << 49, 46, 50, 46, 48, 46, 50, 53, 53 >>
Run(k, from) == [i \in 1..k |-> Grp(from + i)]
Txt == LET L == Join(Run(a, 0), <<58>>)
           R == Join(Run(b, a) \o (IF four THEN << Tail4 >> ELSE <<>>), <<58>>)
       IN IF dc THEN L \o <<58, 58>> \o R ELSE IF a = 0 THEN R ELSE IF R = <<>> THEN L ELSE L \o <<58>> \o R
Init == a \in 0..9 /\ b \in 0..9 /\ dc \in BOOLEAN /\ four \in BOOLEAN /\ sty \in 0..2
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Size == a + b + (IF four THEN 2 ELSE 0)
Counting == (V6(Txt) # <<>>) = (IF dc THEN Size <= 7 ELSE Size = 8)
Emit == PrintT(<<"EMIT", ToJson(Txt)>>)
=============================================================================
