-------------------------------- MODULE MCSdp --------------------------------
(* Candidate attribute lines put together token by token from good and bad      *)
(* choices, with name/value pairs, cut after any token.                         *)
EXTENDS Ice, Json
CONSTANTS MaxBad
VARIABLES ch, cut, tail
vars == <<ch, cut, tail>>
Slots == << <<<<49, 43, 47, 97, 90>>, <<97, 45, 98>>, <<>>, <<120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120, 120>>>>, <<<<49>>, <<50, 53, 54>>, <<50, 53, 55>>, <<120>>>>, <<<<117, 100, 112>>, <<85, 100, 80>>, <<116, 99, 112>>>>, <<<<50, 49, 51, 48, 55, 48, 54, 52, 51, 49>>, <<48>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>>>, <<<<49, 46, 50, 46, 51, 46, 52>>, <<50, 48, 48, 49, 58, 100, 98, 56, 58, 58, 49>>, <<104, 111, 115, 116, 46, 110, 97, 109, 101>>, <<45, 98, 97, 100>>, <<>>>>, <<<<57>>, <<54, 53, 53, 51, 54>>>>, <<<<116, 121, 112>>, <<84, 121, 112>>>>, <<<<104, 111, 115, 116>>, <<115, 82, 70, 76, 88>>, <<102, 111, 111>>>> >>
GoodIn == << {1}, {1, 2}, {1, 2}, {1}, {1, 2, 3}, {1}, {1}, {1, 2} >>
Tails == << <<>>, <<32, 114, 97, 100, 100, 114, 32, 49, 48, 46, 48, 46, 48, 46, 49>>, <<32, 114, 97, 100, 100, 114, 32, 97, 45>>, <<32, 114, 112, 111, 114, 116, 32, 55>>, <<32, 114, 112, 111, 114, 116, 32, 120>>, <<32, 120, 32, 121>>, <<32, 120>>, <<32, 114, 97, 100, 100, 114>>, <<32, 114, 112, 111, 114, 116>>, <<32, 114, 97, 100, 100, 114, 32, 49, 46, 49, 46, 49, 46, 49, 32, 107, 32, 118, 32, 114, 112, 111, 114, 116, 32, 49, 32, 114, 97, 100, 100, 114, 32, 58, 58, 49, 32, 114, 112, 111, 114, 116, 32, 50>>, <<32, 120, 32, 32, 121, 32, 122>>, <<32, 116, 121, 112, 32, 104, 111, 115, 116, 32, 114, 97, 100, 100, 114, 32, 97, 46, 98>>, <<32>> >>
GoodTails == {1, 11, 2, 4, 6, 10, 12, 13}
Init == ch = <<>> /\ cut = 0 /\ tail = 0
NBad(c) == Cardinality({i \in DOMAIN c : c[i] \notin GoodIn[i]})
Pick == Len(ch) < 8 /\ UNCHANGED <<cut, tail>> /\ \E x \in DOMAIN Slots[Len(ch) + 1] : ch' = Append(ch, x) /\ NBad(ch') <= MaxBad
\* cut to k tokens, or a tail of pairs
End == Len(ch) = 8 /\ cut = 0 /\ UNCHANGED ch
       /\ \/ cut' = 9 /\ tail' \in DOMAIN Tails
          \/ cut' \in 1..8 /\ tail' = 1 /\ NBad(ch) <= 1
Next == Pick \/ End
Spec == Init /\ [][Next]_vars
Toks == [i \in 1..8 |-> Slots[i][ch[i]]]
Txt == SPrefix \o Join(SubSeq(Toks, 1, cut - 1), <<SP>>) \o (IF cut = 9 THEN Tails[tail] ELSE <<>>)
Done == cut # 0
Accepted == Done => (Sdp(Txt).k = "sup") = (cut = 9 /\ NBad(ch) = 0 /\ tail \in GoodTails)
Unsup == Done /\ cut = 9 /\ tail \in GoodTails =>
    (Sdp(Txt).k = "unsup") = (/\ NBad(ch) > 0 /\ \A i \in 1..8 : ch[i] \in GoodIn[i] \/ i \in {3, 5, 8}
                              /\ Toks[5] # <<>>)
OneError == Done /\ cut = 9 /\ tail \in GoodTails /\ NBad(ch) = 1 /\ (\A i \in {3, 5, 7, 8} : ch[i] \in GoodIn[i]) => Sdp(Txt).k = "err"
Emit == Done => PrintT(<<"EMIT", ToJson(Txt)>>)
=============================================================================
