------------------------------ MODULE Network ------------------------------
(* Which validators a node knows as peers, and which side of a pair opens the connection. *)
EXTENDS Base
High(k) == HexByte(k, 31) > 127
Xor3(a, b, c) == (a # b) # c
Initiator(a, b) == IF Xor3(High(a), High(b), HexLT(a, b)) THEN a ELSE b
(* n: [self |-> [key, addr], past, active, next : sequences of [key, addr]]; addr "" = none published *)
Known(n) ==
  LET all == [x \in {p.addr : p \in Elems(n.past) \cup Elems(n.active) \cup Elems(n.next)} |->
               LET last(s) == SelectSeq(s, LAMBDA p : p.addr = x) IN
               IF last(n.next) # <<>> THEN Last_(last(n.next)).key
               ELSE IF last(n.active) # <<>> THEN Last_(last(n.active)).key ELSE Last_(last(n.past)).key]
  IN {<<x, all[x]>> : x \in DOMAIN all \ {"", n.self.addr}}
Contacts(n) == {p[1] : p \in {q \in Known(n) : q[2] # n.self.key /\ Initiator(n.self.key, q[2]) = n.self.key}}
=============================================================================
