------------------------------ MODULE Bindings ------------------------------
(* What the Node.js bindings (node/) make of the library's values and of the   *)
(* arguments they get.                                                         *)
EXTENDS Js
W == INSTANCE StunWire
I == INSTANCE Ice

SRequest == <<114, 101, 113, 117, 101, 115, 116>>
SIndication == <<105, 110, 100, 105, 99, 97, 116, 105, 111, 110>>
SSuccess == <<115, 117, 99, 99, 101, 115, 115, 95, 114, 101, 115, 112, 111, 110, 115, 101>>
SError == <<101, 114, 114, 111, 114, 95, 114, 101, 115, 112, 111, 110, 115, 101>>
SBinding == <<98, 105, 110, 100, 105, 110, 103>>
SIgnore == <<105, 103, 110, 111, 114, 101>>
SRespond == <<114, 101, 115, 112, 111, 110, 100>>
SSendData == <<115, 101, 110, 100, 95, 100, 97, 116, 97>>
STransOk == <<116, 114, 97, 110, 115, 97, 99, 116, 105, 111, 110, 95, 111, 107>>
STransFail == <<116, 114, 97, 110, 115, 97, 99, 116, 105, 111, 110, 95, 102, 97, 105, 108>>
SSleep == <<115, 108, 101, 101, 112>>
SIdle == <<105, 100, 108, 101>>
STimeout == <<116, 105, 109, 101, 111, 117, 116>>
SAlternate == <<97, 108, 116, 101, 114, 110, 97, 116, 101, 32, 115, 101, 114, 118, 101, 114>>
SUcr == <<117, 110, 107, 110, 111, 119, 110, 32, 99, 111, 109, 112, 114, 101, 104, 101, 110, 115, 105, 111, 110, 32, 114, 101, 113, 117, 105, 114, 101, 100, 32,
          97, 116, 116, 114, 105, 98, 117, 116, 101>>
SReported == <<117, 110, 107, 110, 111, 119, 110, 32, 114, 101, 113, 117, 105, 114, 101, 100, 32, 97, 116, 116, 114, 105, 98, 117, 116, 101, 32, 114, 101, 112,
               111, 114, 116, 101, 100>>
SStunError == <<115, 116, 117, 110, 32, 101, 114, 114, 111, 114, 58, 32>>
SErr == <<101, 114, 114, 111, 114, 58, 32>>
SColon == <<58, 32>>

BINDING == 1
ClassName(c) == CASE c = 0 -> SRequest [] c = 1 -> SIndication [] c = 2 -> SSuccess [] OTHER -> SError

\* v is a text of the address
Denotes(v, bytes) == Is(v, "str") /\ LET a == I!IpFrom(v.str) IN a.ok /\ a.v = bytes
\* a: <<port>> \o address bytes
EndpointOk(v, a) == /\ Obj(v, {"addr", "port"})
                    /\ v.obj["port"] = Num(a[1])
                    /\ Denotes(v.obj["addr"], Tail(a))

\* messages that have a representation
Representable(p) == p.method = BINDING

Word4(b) == <<b[1] * 256 + b[2], b[3] * 256 + b[4]>>
\* the properties of the attributes object of the message of meaning m: each with the condition its value has
AttrNames(m) == (IF m.user # <<>> THEN {"username"} ELSE {}) \cup (IF m.soft # <<>> THEN {"software"} ELSE {})
                \cup (IF m.xor # <<>> THEN {"xor_mapped"} ELSE {}) \cup (IF m.prio # <<>> THEN {"priority"} ELSE {})
                \cup (IF m.cling # <<>> THEN {"ice-controlling"} ELSE {}) \cup (IF m.cled # <<>> THEN {"ice-controlled"} ELSE {})
                \cup (IF m.use THEN {"use-candidate"} ELSE {}) \cup (IF m.code # <<>> THEN {"error_code"} ELSE {})
AttrOk(n, v, m) ==
    CASE n = "username" -> v = Str(m.user[1])
      [] n = "software" -> v = Str(m.soft[1])
      [] n = "xor_mapped" -> EndpointOk(v, m.xor[1])
      [] n = "priority" -> v = [num |-> Word4(m.prio[1])]
      [] n = "ice-controlling" -> v = [big |-> Word4(m.cling[1]) \o Word4(SubSeq(m.cling[1], 5, 8))]
      [] n = "ice-controlled" -> v = [big |-> Word4(m.cled[1]) \o Word4(SubSeq(m.cled[1], 5, 8))]
      [] n = "use-candidate" -> v = Bool(TRUE)
      [] n = "error_code" -> Obj(v, {"code", "reason"}) /\ v.obj["code"] = Num(m.code[1]) /\ v.obj["reason"] = Str(m.phrase[1])
HeaderOk(v, p) == /\ Obj(v, {"class", "method", "transaction"})
                  /\ v.obj["class"] = Str(ClassName(p.cls))
                  /\ v.obj["method"] = Str(SBinding)
                  /\ v.obj["transaction"] = Buf(p.tid)
MessageOk(v, p) ==
    LET m == W!Meaning(p) IN
    /\ Obj(v, {"header", "is_rfc3489", "attributes"})
    /\ HeaderOk(v.obj["header"], p)
    /\ v.obj["is_rfc3489"] = Bool(p.old)
    /\ Obj(v.obj["attributes"], AttrNames(m))
    /\ \A n \in AttrNames(m) : AttrOk(n, v.obj["attributes"].obj[n], m)

(* ------------------------------- candidates -------------------------------- *)
AddrOk(v, a) == IF a[1] = "ip" THEN Denotes(v, a[2]) ELSE v = Str(a[2])
ExtOk(v, x) == Obj(v, {"name", "value"}) /\ v.obj["name"] = Str(x[1]) /\ v.obj["value"] = Str(x[2])
CandidateOk(v, m) ==
    /\ Obj(v, {"host", "port", "type", "transport", "foundation", "component", "extensions"}
              \cup (IF m.ra # <<>> THEN {"raddr"} ELSE {}) \cup (IF m.rp # <<>> THEN {"rport"} ELSE {}))
    /\ AddrOk(v.obj["host"], m.a)
    /\ v.obj["port"] = Num(m.port)
    /\ v.obj["type"] = Str(m.y)
    /\ v.obj["transport"] = Str(m.t)
    /\ v.obj["foundation"] = Str(m.f)
    /\ v.obj["component"] = Num(m.c)
    /\ m.ra # <<>> => AddrOk(v.obj["raddr"], m.ra[1])
    /\ m.rp # <<>> => v.obj["rport"] = Num(m.rp[1])
    /\ LET x == v.obj["extensions"] IN
       Is(x, "arr") /\ Len(x.arr) = Len(m.x) /\ \A i \in DOMAIN m.x : ExtOk(x.arr[i], m.x[i])

(* -------------------------------- arguments -------------------------------- *)
IsIp(v) == Is(v, "str") /\ I!IpFrom(v.str).ok
IpOf(v) == I!IpFrom(v.str).v
RinfoOk(v) == Is(v, "obj") /\ IsIp(Prop(v, "address")) /\ Is(Prop(v, "port"), "num")
AuthOk(v) == Is(v, "obj") /\ Is(Prop(v, "username"), "str") /\ Is(Prop(v, "password"), "str")
RequestOk(v) == /\ Is(v, "obj")
                /\ IsIp(Prop(v, "source")) /\ IsIp(Prop(v, "target"))
                /\ Has(v, "auth") => AuthOk(Prop(v, "auth"))
SettingsOk(v) == Is(v, "obj") /\ (Has(v, "use_fingerprint") => Is(Prop(v, "use_fingerprint"), "bool"))
UseFp(v) == IF Has(v, "use_fingerprint") THEN Prop(v, "use_fingerprint").bool ELSE TRUE
=============================================================================
