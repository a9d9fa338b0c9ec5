-------------------------------- MODULE MCStr --------------------------------
(* All texts made of up to N items of an alphabet: laws of the definitions of   *)
(* Text and Net are checked on each, and each is given to the real functions.   *)
EXTENDS Ice, Json
CONSTANTS Items, N
VARIABLES s, n
vars == <<s, n>>
Init == s = <<>> /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E x \in Items : s' = s \o x
Spec == Init /\ [][Next]_vars

\* the two definitions of a domain name agree
NameLaw == NameLen(s) = Longest(s) /\ FqdnFrom(s).ok = IsName(s)
\* cutting and joining
Sep == 44
SplitLaw == LET p == SplitAll(s, Sep) IN
    /\ Join(p, <<Sep>>) = (IF s # <<>> /\ s[Len(s)] = Sep THEN Front(s) ELSE s)
    /\ \A i \in DOMAIN p : \A k \in DOMAIN p[i] : p[i][k] # Sep
    /\ Split(s, Sep) = <<>> <=> \A k \in DOMAIN s : s[k] # Sep
    /\ Split(s, Sep) # <<>> => Split(s, Sep)[1] = p[1] /\ Split(s, Sep)[1] \o <<Sep>> \o Split(s, Sep)[2] = s
\* an address text has one meaning
IpLaw == /\ ~(IsV4(s) /\ V6(s) # <<>>)
         /\ \A i, j \in DoubleColon(s) : V6At(s, i) # <<>> /\ V6At(s, j) # <<>> => i = j
         /\ V6(s) # <<>> => Len(V6(s)[1]) = 16 /\ \A i \in 1..16 : V6(s)[1][i] \in 0..255
\* numbers: leading zeros do not change a value, an accepted text has it
NumLaw == /\ PortFrom(s).ok => Dec(s) = <<0, PortFrom(s).v>>
          /\ ComponentFrom(s).ok => Dec(s) = <<0, ComponentFrom(s).v>>
          /\ PriorityFrom(s).ok => PriorityFrom(s).v # <<0, 0>> /\ PriorityFrom(s).v[1] \in 0..65535 /\ PriorityFrom(s).v[2] \in 0..65535
          /\ Len(s) \in 1..9 /\ All(s, IsDigit) => PriorityFrom(<<48>> \o s) = PriorityFrom(s)
Emit == PrintT(<<"EMIT", ToJson(s)>>)

\* a 9 _ - . and a blank
NameItems == {<<97>>, <<90, 57>>, <<95>>, <<45>>, <<46>>, <<32>>}
SplitItems == {<<97>>, <<44>>, <<98>>}
V4Items == {<<46>>, <<48>>, <<49>>, <<48, 48>>, <<50, 53, 53>>, <<50, 53, 54>>, <<50, 53>>, <<49, 50, 51, 52>>, <<97>>}
V6Items == {<<58>>, <<58, 58>>, <<49>>, <<102, 70, 48>>, <<49, 50, 51, 52, 53>>, <<49, 46, 50, 46, 51, 46, 52>>, <<103>>}
NumItems == {<<48>>, <<49>>, <<57>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>, <<54, 53, 53, 51, 53>>, <<50, 53, 54>>, <<32>>, <<45>>, <<54>>}
FoundItems == {<<97>>, <<43>>, <<47, 57>>, <<45>>, <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>, <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118>>, <<126>>}
=============================================================================
