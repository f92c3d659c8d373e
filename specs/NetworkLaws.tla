----------------------------- MODULE NetworkLaws -----------------------------
(* Exactly one side of every pair opens the connection, whatever the keys; and of any set of nodes that know each other
   every pair ends up connected, once. *)
EXTENDS Network
CONSTANTS Heads, Tails
VARIABLES a, b
Keys == {HexCat(<<x, HexZero(30), y>>) : x \in Heads, y \in Tails}
Init == a \in Keys /\ b = ""
Next == b = "" /\ b' \in Keys /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
OneSide == b # "" => /\ Initiator(a, b) = Initiator(b, a) /\ Initiator(a, b) \in {a, b}
Peer(k) == [key |-> k, addr |-> k]
View(self, others) == [self |-> Peer(self), past |-> <<>>, active |-> others, next |-> <<>>]
Opened == b # "" /\ a # b => (b \in Contacts(View(a, <<Peer(a), Peer(b)>>))) # (a \in Contacts(View(b, <<Peer(a), Peer(b)>>)))
NotItself == b # "" => a \notin Contacts(View(a, <<Peer(a), Peer(b)>>))
(* nobody is chosen always or never: among keys alike in their high bits either order occurs *)
Balanced == b = "" => (\E x \in Keys \ {a} : Initiator(a, x) = a) /\ (\E x \in Keys \ {a} : Initiator(a, x) = x)
=============================================================================
