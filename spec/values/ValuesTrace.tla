----------------------------- MODULE ValuesTrace -----------------------------
(* Recorded uses of value types: comparisons, hashes, hash containers, type-    *)
(* erased hashes, wrappers, error codes.                                        *)
EXTENDS Words, SequencesExt, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fn, maps, dyn, count, cats
vars == <<l, fn, maps, dyn, count, cats>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Expect(what) == PrintT(<<"EXPECTED", ToString(what)>>)
Must(c, what) == IF c THEN TRUE ELSE Expect(what) /\ FALSE

TReset == IsEvent("reset") /\ fn' = <<>> /\ maps' = <<>> /\ dyn' = <<>> /\ count' = 0 /\ cats' = {}

------------------------------------------------------------------------------
(* equality and order are those of the contents; bytes, most significant first *)
Less(a, b) == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
TCmp == /\ IsEvent("cmp") /\ UNCHANGED <<fn, maps, dyn, count, cats>>
        /\ LET same == Ev.a = Ev.b IN
           /\ Must(Ev.eq = same /\ Ev.qe = same /\ Ev.ne = ~same /\ Ev.self, same)
           /\ Ev.k # "prio" => Must(Ev.ra = Ev.a /\ Ev.rb = Ev.b, "contents as given")
           /\ Ev.ord # <<>> => LET lt == Less(Ev.a[1], Ev.b[1])
                                   B(c) == IF c THEN 1 ELSE 0
                                   want == <<B(lt), B(lt \/ same), B(~lt /\ ~same), B(~lt), B(same)>> IN Must(Ev.ord = want, want)
------------------------------------------------------------------------------
(* a hash is a function of the content: the part of it seen so far *)
Hashed(k, c, h) == IF <<k, c>> \in DOMAIN fn THEN Must(fn[<<k, c>>] = h, fn[<<k, c>>]) /\ UNCHANGED fn
                   ELSE fn' = (<<k, c>> :> h) @@ fn
THash == IsEvent("hash") /\ UNCHANGED <<maps, dyn, count, cats>> /\ Hashed(Ev.k, Ev.c, Ev.h)

(* the containers: HashMap, one for each kind of key *)
Map(k) == IF k \in DOMAIN maps THEN maps[k] ELSE <<>>
H(k) == INSTANCE HashMap WITH map <- Map(k)
Size(f) == Cardinality(DOMAIN f)
Now(k, f) == maps' = (k :> f) @@ maps
Operation == UNCHANGED <<fn, dyn, count, cats>>
TPut == /\ IsEvent("put") /\ Operation /\ Now(Ev.k, H(Ev.k)!With(Map(Ev.k), Ev.c, Ev.val)) /\ Must(Ev.size = Size(maps'[Ev.k]), Size(maps'[Ev.k]))
TEmp == /\ IsEvent("emp") /\ Operation /\ LET had == H(Ev.k)!Has(Ev.c) IN
           /\ Now(Ev.k, IF had THEN Map(Ev.k) ELSE H(Ev.k)!With(Map(Ev.k), Ev.c, Ev.val))
           /\ Must(Ev.new = ~had /\ Ev.size = Size(maps'[Ev.k]), <<~had, Size(maps'[Ev.k])>>)
TDel == /\ IsEvent("del") /\ Operation /\ Now(Ev.k, [x \in DOMAIN Map(Ev.k) \ {Ev.c} |-> Map(Ev.k)[x]])
        /\ LET n == IF H(Ev.k)!Has(Ev.c) THEN 1 ELSE 0 IN Must(Ev.n = n /\ Ev.size = Size(maps'[Ev.k]), <<n, Size(maps'[Ev.k])>>)
TGet == /\ IsEvent("get") /\ Operation /\ UNCHANGED maps /\ Must(Ev.v = H(Ev.k)!Get(Ev.c) /\ Ev.size = Size(Map(Ev.k)), H(Ev.k)!Get(Ev.c))
TDump == /\ IsEvent("dump") /\ Operation /\ UNCHANGED maps
         /\ LET want == {<<c, Map(Ev.k)[c]>> : c \in DOMAIN Map(Ev.k)} IN Must(Len(Ev.all) = Cardinality(want) /\ ToSet(Ev.all) = want, want)
------------------------------------------------------------------------------
(* type-erased hashes: dyn maps an instance (type of key, number) to its algorithm; algorithm k hashes v to v(2k+1)+k, twice 32 bits *)
Algorithm(k, v) == LET n == v * (2 * k + 1) + k IN <<n \div 65536, n % 65536, n \div 65536, n % 65536>>
TDyn == /\ IsEvent("dyn") /\ UNCHANGED <<fn, maps, count, cats>>
        /\ LET me == <<Ev.t, Ev.i>>
               of == <<Ev.t, Ev.x>>
           IN CASE Ev.op \in {"new", "newt"} -> dyn' = (me :> Ev.x) @@ dyn
                [] Ev.op \in {"copy", "move"} -> of \in DOMAIN dyn /\ dyn' = (me :> dyn[of]) @@ dyn
                [] Ev.op = "call" -> me \in DOMAIN dyn /\ UNCHANGED dyn /\ Must(Ev.h = Algorithm(dyn[me], Ev.x), Algorithm(dyn[me], Ev.x))
------------------------------------------------------------------------------
(* wrappers: the n-th value of a sweep was made from from + n step (32 bits) *)
Num(w) == w[1] * 65536 + w[2]
Arg(n) == LET s == n * Num(Ev.step) IN WAdd(Ev.from, <<s \div 65536, s % 65536>>)
Bit(v, p) == (v \div p) % 2
ClassOf(t) == Bit(t, 16) + 2 * Bit(t, 256)
ClassBits(t) == Bit(t, 16) * 16 + Bit(t, 256) * 256
Wrapped(k, w) ==
    CASE k \in {"seq", "ts", "ssrc", "rate", "port", "handle"} -> w
      [] k = "attr" -> <<w, w[2] <= 32767>>
      [] k = "pt" -> IF w[2] <= 127 THEN w ELSE <<>>
      [] k = "family" -> IF w[2] = 1 THEN <<1, TRUE>> ELSE IF w[2] = 2 THEN <<2, FALSE>> ELSE <<>>
      [] k = "comp" -> IF (w[1] = 0) /\ w[2] >= 1 /\ w[2] <= 256 THEN w ELSE <<>>
      [] k = "mtype" -> <<ClassOf(w[2]), ClassBits(w[2]), w[2] - ClassBits(w[2]), w[2] - ClassBits(w[2]) = 1>>
      \* first word of an RTP packet with 19 more words: version, padding, extension, csrc count, marker, type, sequence
      [] k = "rtp" -> IF w[1] \div 16384 # 2 THEN <<>>
                      ELSE << Bit(w[1], 128), w[1] % 128, w[2], (w[1] \div 256) % 16, Bit(w[1], 4096),
                              80 - 12 - 4 * ((w[1] \div 256) % 16) - 4 * Bit(w[1], 4096) - Bit(w[1], 8192) >>
TSweep == /\ IsEvent("sweep") /\ UNCHANGED <<fn, maps, dyn, count, cats>>
          /\ \A n \in DOMAIN Ev.v : LET want == Wrapped(Ev.k, Arg(n - 1)) IN Must(Ev.v[n] = want, <<Arg(n - 1), want>>)
TBool == /\ IsEvent("bool") /\ UNCHANGED <<fn, maps, dyn, count, cats>>
         /\ LET b == IF Ev.want THEN 1 ELSE 0 IN Must(\A i \in DOMAIN Ev.v : Ev.v[i] = b, b)
TInc == /\ IsEvent("inc") /\ UNCHANGED <<fn, maps, dyn, cats>> /\ count' = count + Ev.n
        /\ Must(Ev.v = count' /\ Ev.c = count' + (Ev.n % 2), count')
TEndpoint == /\ IsEvent("ep") /\ UNCHANGED <<fn, maps, dyn, count, cats>>
             /\ Must(Ev.udp = Ev.isudp /\ Ev.a = Ev.addr /\ Ev.p = Ev.port, <<Ev.isudp, Ev.addr, Ev.port>>)
\* a generated transaction id consists of the words drawn, in some order
WordsOf(v) == [i \in 1..(Len(v) \div 4) |-> WOf(v, 4 * i - 3)]
Swapped(w) == << (w[2] % 256) * 256 + w[2] \div 256, (w[1] % 256) * 256 + w[1] \div 256 >>
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
TTid == /\ IsEvent("tidgen") /\ UNCHANGED <<fn, maps, dyn, count, cats>>
        /\ LET n == IF Ev.old THEN 4 ELSE 3
               ws == SubSeq(Ev.words, 1, n)
               got == WordsOf(Ev.v)
           IN Must(Len(Ev.v) = 4 * n /\ Ev.drawn = n /\ (SameBag(got, ws) \/ SameBag([i \in DOMAIN got |-> Swapped(got[i])], ws)), ws)
------------------------------------------------------------------------------
(* error codes; Base is a message without the decimal value of its code at the end, as unknown values may be given *)
Base(m, d) == LET n == Len(m) - Len(d) IN IF n >= 0 /\ SubSeq(m, n + 1, Len(m)) = d THEN SubSeq(m, 1, n) ELSE m
Msgs(cs) == [i \in DOMAIN cs |-> cs[i].msg]
Bases(cs) == {Base(cs[i].msg, cs[i].dec) : i \in DOMAIN cs}
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
TCodes == /\ IsEvent("codes") /\ UNCHANGED <<fn, maps, dyn, count>>
          /\ Must(Ev.name # <<>> /\ \A c \in cats : c.cat # Ev.cat => (c.name # Ev.name /\ c.id # Ev.id), "a category and name of its own")
          /\ \A i \in DOMAIN Ev.codes : LET c == Ev.codes[i] IN
                /\ Must(c.v = c.want /\ c.cat = Ev.id /\ c.same, <<c.n, "its own value in its own category">>)
                /\ Must(c.set = (c.n # "ok") /\ (c.n = "ok" => c.v = 0), <<c.n, "only ok means success">>)
                /\ Must(c.msg # <<>>, <<c.n, "a message">>)
          /\ Must(Distinct([i \in DOMAIN Ev.codes |-> Ev.codes[i].v]), "values of their own")
          /\ Must(Distinct(Msgs(Ev.codes)), "messages of their own")
          /\ cats' = {c \in cats : c.cat # Ev.cat} \cup {[cat |-> Ev.cat, id |-> Ev.id, name |-> Ev.name, vs |-> {Ev.codes[i].v : i \in DOMAIN Ev.codes}, ms |-> ToSet(Msgs(Ev.codes)) \cup Bases(Ev.codes)]}
TOut == /\ IsEvent("out") /\ UNCHANGED <<fn, maps, dyn, count, cats>>
        /\ \E c \in cats : /\ c.cat = Ev.cat /\ ~(Ev.want \in c.vs)
                           /\ Must(Ev.v = Ev.want /\ Ev.set, "the value kept")
                           /\ Must(Ev.msg # <<>> /\ ~(Base(Ev.msg, Ev.dec) \in c.ms), "the message for unknown values")
TEqs == /\ IsEvent("eqs") /\ UNCHANGED <<fn, maps, dyn, count, cats>>
        /\ \A i, j \in DOMAIN Ev.ids : /\ Must(Ev.eq[i][j] = (IF i = j THEN 1 ELSE 0), <<Ev.ids[i], Ev.ids[j]>>)
                                       /\ Must(Ev.cond[i][j] = (IF i = j THEN 1 ELSE 0), <<Ev.ids[i], "the condition of", Ev.ids[j]>>)
        /\ Must(Ev.foreign = <<>>, "equal to no code or condition of another library")
\* descriptions do not depend on what other threads do
TTalk == /\ IsEvent("talk") /\ UNCHANGED <<fn, maps, dyn, count, cats>> /\ Must(Ev.wrong = 0, 0)
TOssl == /\ IsEvent("ossl") /\ UNCHANGED <<fn, maps, dyn, count, cats>>
         /\ Must(Ev.v = Ev.want /\ Ev.set = (Ev.want # <<0, 0>>) /\ Ev.other /\ Ev.name # <<>>, "the value, in the category of OpenSSL")
         /\ Must(Ev.msg = Ev.oracle, Ev.oracle)

TraceInit == l = 1 /\ fn = <<>> /\ maps = <<>> /\ dyn = <<>> /\ count = 0 /\ cats = {}
TraceNext == \/ TReset \/ TCmp \/ THash \/ TPut \/ TEmp \/ TDel \/ TGet \/ TDump \/ TDyn \/ TSweep \/ TBool \/ TInc \/ TEndpoint \/ TTid
             \/ TCodes \/ TOut \/ TEqs \/ TTalk \/ TOssl
TraceSpec == TraceInit /\ [][TraceNext]_vars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
