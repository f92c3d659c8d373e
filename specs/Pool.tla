------------------------------- MODULE Pool -------------------------------
(* The pool of extrinsics waiting for a block: each is held once, however often it is handed in, and listed under the  *)
(* kind and the slot it was handed in for in the order it first was. The pool never outgrows its size; a full one       *)
(* refuses what it does not hold yet and stays as it is.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets
Key(kind, slot) == <<kind, slot>>
EmptyPool == [held |-> {}, lists |-> <<>>]      (* lists: a function from keys to sequences *)
Listed(p, k) == IF k \in DOMAIN p.lists THEN p.lists[k] ELSE <<>>
Range(q) == {q[i] : i \in DOMAIN q}
Full(p, max) == Cardinality(p.held) >= max
(* Handing in something new that no longer fits. *)
Refused(p, max, x) == Full(p, max) /\ x \notin p.held
Add(p, k, x) == [held |-> p.held \cup {x},
                 lists |-> [j \in DOMAIN p.lists \cup {k} |-> IF j = k /\ x \notin Range(Listed(p, k)) THEN Append(Listed(p, k), x) ELSE Listed(p, j)]]
=============================================================================
