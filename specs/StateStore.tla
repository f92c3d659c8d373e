------------------------------ MODULE StateStore ------------------------------
(* The chain's key/value state: what is committed, what is pending on top of it, and the root that commits to it.
   A state store is [com, pend]: com maps keys to values; pend maps keys to a write or a removal.
   Pending entries are normalised: removing a key that is not committed leaves nothing pending. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Write(v) == [w |-> TRUE, v |-> v]
Removal == [w |-> FALSE, v |-> ""]
Nothing == [has |-> FALSE, v |-> ""]
Just(v) == [has |-> TRUE, v |-> v]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Committed(s, k) == IF k \in DOMAIN s.com THEN Just(s.com[k]) ELSE Nothing
Read(s, k) == IF k \in DOMAIN s.pend THEN (IF s.pend[k].w THEN Just(s.pend[k].v) ELSE Nothing) ELSE Committed(s, k)
Visible(s, k) == Read(s, k).has

CanAdd(s, k) == ~Visible(s, k)
CanUpdate(s, k) == Visible(s, k)
CanRemove(s, k) == Visible(s, k)
Put(s, k, v) == [s EXCEPT !.pend = With(@, k, Write(v))]
Drop(s, k) == [s EXCEPT !.pend = IF k \in DOMAIN s.com THEN With(@, k, Removal) ELSE Without(@, k)]

Rollback(s) == [s EXCEPT !.pend = <<>>]
(* the committed map after the pending changes d *)
Applied(com, d) ==
  LET gone == {k \in DOMAIN d : ~d[k].w} IN
  [k \in (DOMAIN com \cup DOMAIN d) \ gone |-> IF k \in DOMAIN d THEN d[k].v ELSE com[k]]
Commit(s) == [com |-> Applied(s.com, s.pend), pend |-> <<>>]
=============================================================================
