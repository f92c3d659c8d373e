------------------------------ MODULE TrieLaws ------------------------------
(* The state root tells maps apart, changes back when a change is undone, and does not depend on how a map came about:
   every map over the keys and values chosen, reached by every sequence of single changes. *)
EXTENDS StateRoot, TLC
CONSTANTS Values
VARIABLES m
Prefix == HexZero(30)
(* keys that part at their first bit, within an octet, and at their very last bit *)
Keys == {HexCat(<<"80", Prefix>>), HexCat(<<"00", Prefix>>), HexCat(<<Prefix, "01">>), HexCat(<<Prefix, "10">>)}
Vals == {HexCat([i \in 1..n |-> "5a"]) : n \in Values}
Maps == UNION {[S -> Vals] : S \in SUBSET Keys}
Init == m \in {[k \in {} |-> ""]}
Put(f, k, x) == [z \in DOMAIN f \cup {k} |-> IF z = k THEN x ELSE f[z]]
Drop(f, k) == [z \in DOMAIN f \ {k} |-> f[z]]
Next == \/ \E k \in Keys : \E x \in Vals : m' = Put(m, k, x)
        \/ \E k \in DOMAIN m : m' = Drop(m, k)
Spec == Init /\ [][Next]_m
EmptyZero == (DOMAIN m = {}) = (Root(m) = Zero32)
Changes == [][Root(m') # Root(m)]_m
AllDiffer == DOMAIN m = {} => Cardinality({Root(f) : f \in Maps}) = Cardinality(Maps)
=============================================================================
