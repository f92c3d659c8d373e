------------------------------ MODULE Ancestors ------------------------------
(* The set of known ancestors: <<slot, hash>> entries, the cap latest of those added. *)
EXTENDS Prim, FiniteSets
Older(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ HexLT(x[2], y[2]))
Oldest(A) == CHOOSE x \in A : \A y \in A : x = y \/ Older(x, y)
Added(A, x, cap) ==
  IF x \in A \/ Cardinality(A) < cap THEN A \cup {x}
  ELSE IF Older(Oldest(A), x) THEN (A \ {Oldest(A)}) \cup {x} ELSE A
RECURSIVE AddedAll(_, _, _)
AddedAll(A, s, cap) == IF s = <<>> THEN A ELSE AddedAll(Added(A, Head(s), cap), Tail(s), cap)
RECURSIVE Latest(_, _)
Latest(S, n) == IF Cardinality(S) <= n THEN S ELSE Latest(S \ {Oldest(S)}, n)
=============================================================================
