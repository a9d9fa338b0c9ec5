----------------------------- MODULE ClockTrace -----------------------------
(* Recorded operations on real time points and converters.  The definitions of *)
(* Clock and Converter on 64-bit words.                                        *)
EXTENDS Wide, Json, IOUtils, TLC, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, regs, cv
tvars == <<l, regs, cv>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Expect(what) == PrintT(<<"EXPECTED", ToString(what)>>)
Must(c, what) == IF c THEN TRUE ELSE Expect(what) /\ FALSE

\* microseconds per unit, or units per microsecond
Mul(u) == CASE u = "us" -> <<1>> [] u = "ms" -> <<1000>> [] u = "s" -> <<1000, 1000>> [] u = "min" -> <<1000, 1000, 60>>
            [] u = "h" -> <<1000, 1000, 3600>> [] u = "d" -> <<1000, 1000, 3600, 24>> [] u = "w" -> <<1000, 1000, 3600, 24, 7>>
            [] u = "10us" -> <<10>>
Fine(u) == u \in {"ns", "ps", "third", "tenth"}
Div(u) == CASE u = "ns" -> <<1000>> [] u = "ps" -> <<1000, 1000>> [] u = "third" -> <<3>> [] u = "tenth" -> <<10>>

NoConv == [unit |-> "none", prev |-> WZero, last |-> WZero, fresh |-> TRUE, mono |-> FALSE]
TReset == IsEvent("reset") /\ regs' = [i \in 0..7 |-> WZero] /\ cv' = [i \in 0..3 |-> NoConv]

TAdvance == /\ IsEvent("adv") /\ UNCHANGED cv
            /\ LET want == Add64(regs[Ev.src], SMuls(Ev.n, Mul(Ev.unit))) IN Must(Ev.v = want, want)
            /\ Must(Ev.keep = regs[Ev.src], "source unchanged")
            /\ regs' = [regs EXCEPT ![Ev.dst] = Ev.v]
TAdvanceFrom == /\ IsEvent("advf") /\ UNCHANGED cv
                /\ IF Fine(Ev.unit)
                   THEN LET q == Sub64(Ev.v, regs[Ev.src]) IN Must(IsTruncDiv(Ev.n, Div(Ev.unit), q, Ev.rem), "whole microseconds, rest")
                   ELSE LET want == Add64(regs[Ev.src], SMuls(Ev.n, Mul(Ev.unit))) IN Must(Ev.v = want /\ Ev.rem = WZero, want)
                /\ Must(Ev.keep = regs[Ev.src], "source unchanged")
                /\ regs' = [regs EXCEPT ![Ev.dst] = Ev.v]
Anti == <<32768, 0, 0, 0>>
TCompare == /\ IsEvent("cmp") /\ UNCHANGED <<regs, cv>>
            /\ LET a == regs[Ev.a]
                   b == regs[Ev.b]
                   d == Sub64(a, b)
               IN /\ Must(Ev.eq = (a = b) /\ Ev.ne = (a # b), a = b)
                  /\ d # Anti => /\ Must(Ev.after = (d # WZero /\ ~IsNeg(d)), <<"after", d>>)
                                 /\ Must(Ev.before = IsNeg(d), <<"before", d>>)
                                 /\ Must(Ev.diff = d, d)
                                 /\ Must(Ev.rafter = Ev.before /\ Ev.rbefore = Ev.after /\ Ev.rdiff = Neg64(d), "mirror")

\* converters: the reading is in units since the clock's epoch; several may be in use, and copies of them
Accurate(c, t, v) ==
    IF Fine(c.unit)
    THEN LET m == UMuls(Abs64(v), Div(c.unit))
             r == Sub64(t, SMuls(v, Div(c.unit)))
             one == UMuls(WOne, Div(c.unit))
         IN /\ m.ok /\ ULess(Abs64(r), one.v)
            /\ c.mono => ~IsNeg(r)
    ELSE v = SMuls(t, Mul(c.unit))
TConv == /\ IsEvent("conv") /\ UNCHANGED regs
         /\ cv' = [cv EXCEPT ![Ev.reg] = [unit |-> Ev.unit, prev |-> Ev.t, last |-> WZero, fresh |-> TRUE, mono |-> ~IsNeg(Ev.t)]]
TConvCopy == IsEvent("convcopy") /\ UNCHANGED regs /\ cv' = [cv EXCEPT ![Ev.reg] = cv[Ev.src]]
TNow == /\ IsEvent("now") /\ UNCHANGED regs
        /\ LET c == cv[Ev.reg] IN
           /\ c.unit # "none"
           /\ cv' = [cv EXCEPT ![Ev.reg] = [c EXCEPT !.prev = Ev.t, !.last = Ev.v, !.fresh = FALSE, !.mono = @ /\ ~IsNeg(Ev.t) /\ SLeq(c.prev, Ev.t)]]
           /\ Must(Accurate(cv'[Ev.reg], Ev.t, Ev.v), "within a microsecond of the reading, rounded down while it never steps back")
           /\ ~c.fresh => Must(/\ SLeq(c.prev, Ev.t) => SLeq(c.last, Ev.v)
                               /\ SLeq(Ev.t, c.prev) => SLeq(Ev.v, c.last), "order of readings")
\* the process-wide steady clock, between two readings of std::chrono::steady_clock (ns)
TSteady == /\ IsEvent("steady") /\ UNCHANGED <<regs, cv>>
           /\ LET lo == UMuls(Ev.v, <<1000>>)
                  hi == UMuls(Add64(Ev.v, WOne), <<1000>>)
              IN /\ Must(lo.ok /\ SLeq(lo.v, Ev.t1), "not after the second reading")
                 /\ Must(SLess(Ev.t0, hi.v), "not before the first reading")

TraceInit == l = 1 /\ regs = [i \in 0..7 |-> WZero] /\ cv = [i \in 0..3 |-> NoConv]
TraceNext == TReset \/ TAdvance \/ TAdvanceFrom \/ TCompare \/ TConv \/ TConvCopy \/ TNow \/ TSteady
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
