------------------------------- MODULE MCRtp -------------------------------
(* Packets put together part by part (every combination of a few choices for   *)
(* each part), then possibly cut or with one field falsified.  TLC checks the  *)
(* geometry and prints the datagrams, which are given to the real parser.      *)
EXTENDS RtpWire, Json
CONSTANTS Firsts, Ccs, ExtWords, Payloads, Pads, Cuts

VARIABLES d, stage, parts
vars == <<d, stage, parts>>

Map == (0 :> <<0, 8000>>) @@ (96 :> <<1, 24464>>) @@ (127 :> <<0, 0>>)

Bytes(n, s) == [i \in 1..n |-> (s * i + 7 * s) % 256]
\* first byte without the CSRC count, second byte
Init == \E f \in Firsts, pt \in {0, 96, 127 + 128, 95} :
           /\ d = <<f, pt>> \o Bytes(10, 37) /\ stage = "csrc"
           /\ parts = [cc |-> 0, ext |-> 0, pay |-> 0, pad |-> 0, cut |-> 0]
SetCc(m, n) == [m EXCEPT ![1] = (@ \div 16) * 16 + n]
Csrc == /\ stage = "csrc" /\ stage' = "ext"
        /\ \E n \in Ccs : d' = SetCc(d, n) \o Bytes(4 * n, 11) /\ parts' = [parts EXCEPT !.cc = n]
Ext == /\ stage = "ext" /\ stage' = "payload"
       /\ IF XFlag(d) THEN \E n \in ExtWords : d' = d \o <<190, 222>> \o B16(n) \o Bytes(4 * n, 5) /\ parts' = [parts EXCEPT !.ext = 4 * n + 4]
          ELSE UNCHANGED <<d, parts>>
Payload == /\ stage = "payload" /\ stage' = "pad"
           /\ \E n \in Payloads : d' = d \o Bytes(n, 3) /\ parts' = [parts EXCEPT !.pay = n]
Pad == /\ stage = "pad" /\ stage' = "cut"
       /\ IF PFlag(d) THEN \E n \in Pads : d' = d \o Zeros(n - 1) \o <<n>> /\ parts' = [parts EXCEPT !.pad = n]
          ELSE UNCHANGED <<d, parts>>
\* k < 100: cut k bytes off; 101: last byte zero; 102: last byte one too large; 103: last byte 255;
\* 104: extension one word longer than it is
Cut == /\ stage = "cut" /\ stage' = "done"
       /\ \E k \in Cuts :
            /\ parts' = [parts EXCEPT !.cut = k]
            /\ d' = CASE k < 100 -> SubSeq(d, 1, Len(d) - k)
                      [] k = 101 -> [d EXCEPT ![Len(d)] = 0]
                      [] k = 102 -> [d EXCEPT ![Len(d)] = (parts.pay + parts.pad + 1) % 256]
                      [] k = 103 -> [d EXCEPT ![Len(d)] = 255]
                      [] OTHER -> IF parts.ext = 0 THEN d ELSE [d EXCEPT ![12 + 4 * parts.cc + 4] = @ + 1]
Next == Csrc \/ Ext \/ Payload \/ Pad \/ Cut
Spec == Init /\ [][Next]_vars

P == Parse(d, Map)
Untouched == stage = "done" /\ parts.cut = 0
\* a packet built properly is accepted with exactly the parts it was built from
Faithful == Untouched =>
    IF Version(d) = 2 /\ PT(d) \in DOMAIN Map
    THEN /\ P.ok /\ Len(P.m.csrcs) = parts.cc
         /\ P.m.pay = <<12 + 4 * parts.cc + parts.ext, parts.pay>>
         /\ (P.m.ext # <<>>) = XFlag(d)
         /\ P.m.ext # <<>> => P.m.ext[2] + P.m.ext[3] = P.m.pay[1]
    ELSE ~P.ok
\* everything an accepted packet refers to lies inside the datagram
Inside == P.ok => /\ P.m.pay[1] + P.m.pay[2] <= Len(d) /\ P.m.pay[1] >= 12 /\ P.m.pay[2] >= 0
                  /\ P.m.ext # <<>> => /\ P.m.ext[2] >= 16 /\ P.m.ext[3] >= 0
                                       /\ P.m.ext[2] + P.m.ext[3] <= P.m.pay[1]
                  /\ (P.m.pay[1] + P.m.pay[2] = Len(d)) = ~PFlag(d)
OneCounter == ("success" \in P.ctr) = P.ok /\ ("error" \in P.ctr) = ~P.ok
Emit == stage = "done" => PrintT(<<"EMIT", ToJson(d)>>)
=============================================================================
