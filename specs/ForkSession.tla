------------------------------ MODULE ForkSession ------------------------------
(* A conformance session: handshake, initialisation, then blocks offered in any order. The node keeps one committed head
   and, when forks are enabled, the valid children of that head it has seen (staged). Offering a block whose parent is
   staged makes that parent the head and forgets its siblings, whatever becomes of the block itself.
   A block is answered with the root it would have on a fresh node initialised to its parent (Fresh), provided its parent
   is the head; anything else is answered with an error and changes nothing. *)
EXTENDS Naturals, Sequences, FiniteSets
None == [phase |-> "none", forking |-> FALSE, head |-> "", staged |-> {}]
Shaken(f) == [None EXCEPT !.phase = "shaken", !.forking = f]
Opened(s, h) == [s EXCEPT !.phase = "open", !.head = h]
Settle(s, p) == IF p \in s.staged THEN [s EXCEPT !.head = p, !.staged = {}] ELSE s
Takes(s, p, good) == s.phase = "open" /\ Settle(s, p).head = p /\ good
AfterImport(s, b, p, good) ==
  LET t == Settle(s, p) IN
  IF ~Takes(s, p, good) THEN t
  ELSE IF s.forking THEN [t EXCEPT !.staged = @ \cup {b}] ELSE [t EXCEPT !.head = b]
Known(s) == IF s.phase = "open" THEN {s.head} \cup s.staged ELSE {}
=============================================================================
