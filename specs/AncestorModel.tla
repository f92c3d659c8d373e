---------------------------- MODULE AncestorModel ----------------------------
(* Whatever the order in which headers become known, the set holds the latest of them; along a chain, every ancestor a report may
   still refer to. *)
EXTENDS Ancestors
CONSTANTS Cap, MaxSlot
VARIABLES all, set, head, chain
vars == <<all, set, head, chain>>
Entry(t, k) == <<t, IF k = 0 THEN "00" ELSE "01">>
Init == all = {} /\ set = {} /\ head = 0 /\ chain = {}
(* headers handed over at the start, in any order; then a chain *)
Given == chain = {} /\ \E t \in 1..MaxSlot : \E k \in {0, 1} : LET e == Entry(t, k) IN
  /\ e \notin all /\ all' = all \cup {e} /\ set' = Added(set, e, Cap) /\ UNCHANGED <<head, chain>>
Extend == \E t \in (head + 1)..MaxSlot : LET e == Entry(t, 0) IN
  /\ all = chain
  /\ all' = all \cup {e} /\ chain' = chain \cup {e} /\ head' = t /\ set' = Added(set, e, Cap)
Next == Given \/ Extend
Spec == Init /\ [][Next]_vars
HoldsLatest == set = Latest(all, Cap)
(* a block one or more slots later may refer to anything at most Cap slots older than itself *)
Reachable == chain # {} => \A x \in chain : x[1] + Cap >= head + 1 => x \in set
=============================================================================
