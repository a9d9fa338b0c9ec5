------------------------------ MODULE ListTrace ------------------------------
(* Recorded operations of real intrusive lists, checked against IList.  After    *)
(* every operation the driver reports all it can see without changing anything.  *)
EXTENDS IList, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<l, lists, alive>>
Ev == Trace[l]
Expect(what) == PrintT(<<"EXPECTED", ToString(what)>>)
Must(c, what) == IF c THEN TRUE ELSE Expect(what) /\ FALSE
NL == 5
Views(L) == [i \in 1..NL |-> IF L[i].link = 0 THEN <<>> ELSE ListView(L, i)]
Ins(L, A) == {<<i, x>> \in {1, 2} \X A : InOf(L, i, x)}
Step(o) ==
    CASE o[1] = "NL" -> NewList(o[2], o[3])
      [] o[1] = "DL" -> DelList(o[2])
      [] o[1] = "ML" -> MoveList(o[2], o[3])
      [] o[1] = "AL" -> AssignList(o[2], o[3])
      [] o[1] = "NE" -> NewElem(o[2])
      [] o[1] = "DE" -> DelElem(o[2])
      [] o[1] = "ME" -> MoveElem(o[2], o[3])
      [] o[1] = "pb" -> PushBack(o[2], o[3])
      [] o[1] = "pf" -> PushFront(o[2], o[3])
      [] o[1] = "PF" -> PopFront(o[2])
      [] o[1] = "PB" -> PopBack(o[2])
      [] o[1] = "CL" -> Clear(o[2])
      [] o[1] = "RM" -> Unlink(o[2], o[3])
TReset == l <= Len(Trace) /\ Ev.e = "reset" /\ l' = l + 1 /\ lists' = [k \in 1..NL |-> None] /\ alive' = {}
TOp == /\ l <= Len(Trace) /\ Ev.e = "op" /\ l' = l + 1
       /\ IF ENABLED Step(Ev.o) THEN TRUE ELSE Assert(FALSE, <<"script", Ev.o, lists, alive>>)
       /\ Step(Ev.o)
       /\ Must(Ev.ls = Views(lists'), <<"fronts and backs", Views(lists')>>)
       /\ Must({Ev.inl[i] : i \in DOMAIN Ev.inl} = Ins(lists', alive'), <<"elements in lists", Ins(lists', alive')>>)
       /\ Must(Ev.ok, "empty(), const accessors and element references agree")
TraceInit == l = 1 /\ lists = [k \in 1..NL |-> None] /\ alive = {}
TraceNext == TReset \/ TOp
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
