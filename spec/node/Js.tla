--------------------------------- MODULE Js ---------------------------------
(* JavaScript values as records with one field, their kind:                    *)
(*   str, buf: bytes; num: 32-bit natural as two 16-bit words; neg: magnitude   *)
(*   of a negative number; wide: 64-bit number (four words) that needs more;    *)
(*   big: a BigInt (four words); bool; null; undefined;                        *)
(*   arr: sequence; obj: function from names (and "_", which every one has).    *)
EXTENDS Integers, Sequences
X == INSTANCE Wide

Is(v, kind) == DOMAIN v = {kind}
Str(b) == [str |-> b]
Buf(b) == [buf |-> b]
Num(n) == [num |-> <<n \div 65536, n % 65536>>]
Bool(b) == [bool |-> b]
Null == [null |-> 0]
Undefined == [undefined |-> 0]

Names(v) == DOMAIN v.obj \ {"_"}
Obj(v, names) == Is(v, "obj") /\ Names(v) = names
Has(v, n) == n \in Names(v)
\* a named property, undefined when absent
Prop(v, n) == IF Has(v, n) THEN v.obj[n] ELSE Undefined
NumOf(v) == v.num[1] * 65536 + v.num[2]
\* a number as 64-bit two's complement, and a natural as the JS number of that value
IsNum(v) == Is(v, "num") \/ Is(v, "neg") \/ Is(v, "wide")
Num64(v) == CASE Is(v, "num") -> <<0, 0>> \o v.num [] Is(v, "neg") -> X!Neg64(<<0, 0>> \o v.neg) [] OTHER -> v.wide
\* what is left of a number in 32 bits
Low32(w) == IF w[3] >= 32768 THEN <<65535, 65535, w[3], w[4]>> ELSE <<0, 0, w[3], w[4]>>
Fits32(w) == w = Low32(w)
Max32 == <<0, 0, 32767, 65535>>
Arg(args, i) == IF i <= Len(args) THEN args[i] ELSE Undefined
=============================================================================
