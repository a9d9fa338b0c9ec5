------------------------------- MODULE HashMap -------------------------------
(* What a user of a hash container sees: a partial function from the contents  *)
(* of keys to the values stored last.                                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE map
Empty == <<>>                                  \* no entries: the function with the empty domain
Has(c) == c \in DOMAIN map
Get(c) == IF Has(c) THEN <<map[c]>> ELSE <<>>
With(f, c, v) == [x \in DOMAIN f \cup {c} |-> IF x = c THEN v ELSE f[x]]
Put(c, v) == map' = With(map, c, v)
Emplace(c, v) == map' = IF Has(c) THEN map ELSE With(map, c, v)
Erase(c) == map' = [x \in DOMAIN map \ {c} |-> map[x]]
Size == Cardinality(DOMAIN map)
=============================================================================
