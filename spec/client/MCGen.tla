------------------------------- MODULE MCGen -------------------------------
(* Behaviours of the bounded model as stimuli for the real client.  In breadth  *)
(* first mode (VIEW GenView) every transition of the state graph is printed with *)
(* a shortest stimulus sequence leading to it; in simulation mode long random    *)
(* behaviours are printed.                                                       *)
EXTENDS MCClientUDP
CONSTANTS MaxLen, EmitAll
VARIABLE stim
gvars == <<mcvars, stim>>
GenView == mcvars

Add(x) == stim' = Append(stim, x)

GCreate == \E p \in Paths, a \in Auths :
    /\ made < MaxTx
    /\ Create(now, made, Tid(made), p, a, "")
    /\ made' = made + 1 /\ ghost' = Append(ghost, G0) /\ UNCHANGED now
    /\ Add(<<"create", p, a>>)
GRespond == \E n \in 0 .. made - 1, k \in Kinds, mi \in (IF Auths = {""} THEN {"none"} ELSE {"none", "bad"} \cup (Auths \ {""})) :
    /\ Respond(now, Msg(k, Tid(n), mi), "*")
    /\ UNCHANGED <<now, made, ghost>>
    /\ Add(<<"resp", n, k, mi>>)
GNext == DoNext /\ Add(<<"next">>)
GTick == \E s \in Steps : now + s <= Horizon /\ now' = now + s /\ UNCHANGED <<vars, made, ghost>> /\ Add(<<"tick", s>>)

GenInit == MCInit /\ stim = <<>>
GenNext == Len(stim) < MaxLen /\ (GCreate \/ GRespond \/ GNext \/ GTick)
GenSpec == GenInit /\ [][GenNext]_gvars

Emit == IF EmitAll \/ Len(stim') = MaxLen THEN PrintT(<<"EMIT", ToJson([cfg |-> cfg, s |-> stim'])>>) ELSE TRUE
=============================================================================
