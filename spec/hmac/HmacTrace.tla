------------------------------ MODULE HmacTrace ------------------------------
(* HMAC over an arbitrary hash function, given by the calls recorded of it      *)
(* (input, output or failure), and the OpenSSL back end against SHA-1 and MD5.  *)
EXTENDS Hashes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Expect(what) == PrintT(<<"EXPECTED", ToString(what)>>)
Must(c, what) == IF c THEN TRUE ELSE Expect(what) /\ FALSE

Msg(ps) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ps)
Called(x) == \E i \in DOMAIN Ev.calls : Ev.calls[i].in = x
Out(x) == Ev.calls[CHOOSE i \in DOMAIN Ev.calls : Ev.calls[i].in = x].out
Failed == {i \in DOMAIN Ev.calls : ~Ev.calls[i].ok}
\* key padding: 54 inside, 92 outside
Right(key, msg) ==
    /\ Must(Len(key) > 64 => Called(key), "a key longer than the block is hashed")
    /\ LET k == IF Len(key) > 64 THEN Out(key) ELSE key
           in1 == Pad64(k, 54) \o msg
       IN /\ Must(Called(in1), <<"inner hash of", in1>>)
          /\ LET in2 == Pad64(k, 92) \o Out(in1)
             IN Must(Called(in2), <<"outer hash of", in2>>) /\ Must(Ev.ok /\ Ev.v = Out(in2), Out(in2))
THmac == /\ IsEvent("hmac")
         /\ IF Failed # {} THEN Must(~Ev.ok /\ Ev.err = "hash failed", "the error of the hash function")
            ELSE Right(Ev.key, Msg(Ev.ps))
\* a padded key on its own
TPad == /\ IsEvent("pad")
        /\ IF Failed # {} THEN Must(~Ev.ok /\ Ev.err = "hash failed", "the error of the hash function")
           ELSE /\ Must(Len(Ev.key) > 64 => Called(Ev.key), "a key longer than the block is hashed")
                /\ LET v == Pad64(IF Len(Ev.key) > 64 THEN Out(Ev.key) ELSE Ev.key, Ev.x) IN Must(Ev.ok /\ Ev.v = v, v)
Alg(a, m) == IF a = "sha1" THEN Sha1(m) ELSE Md5(m)
\* the OpenSSL back ends; raised: one of the OpenSSL functions they called failed
THash == /\ IsEvent("hash")
         /\ IF Ev.raised THEN Must(~Ev.ok, "the error of OpenSSL")
            ELSE LET v == Alg(Ev.alg, Msg(Ev.ps)) IN Must(Ev.ok /\ Ev.v = v, v)
TReal == IsEvent("real") /\ LET v == IF Ev.alg = "sha1" THEN HmacWith(Sha1, Ev.key, Msg(Ev.ps)) ELSE HmacWith(Md5, Ev.key, Msg(Ev.ps)) IN Must(Ev.ok /\ Ev.v = v, v)
\* a digest made from bytes
TView == IsEvent("view") /\ LET r == IF Len(Ev.b) = Ev.size THEN << Ev.b >> ELSE <<>> IN Must(Ev.r = r /\ Ev.same, r)
\* digests computed by several threads at the same time are the ones computed alone
TTalk == IsEvent("talk") /\ Must(Ev.wrong = 0, "the digests computed alone")
TReset == IsEvent("reset")
TraceInit == l = 1
TraceNext == TReset \/ THmac \/ TPad \/ THash \/ TReal \/ TView \/ TTalk
TraceSpec == TraceInit /\ [][TraceNext]_l
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
