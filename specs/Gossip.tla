-------------------------------- MODULE Gossip --------------------------------
(* Blocks between nodes. A node that has a new block announces it to every peer it is connected to; a peer that hears of a
   block asks the announcer for it, and hands on to its importer what it is sent. What a node holds of a block may be its
   header, its extrinsics, both or neither; it can supply a block only when it holds both. Streams carry octets, in pieces
   cut anywhere, so a message means the same however it is cut. *)
EXTENDS Integers, Sequences, FiniteSets
(* holds: node -> block -> <<has header, has extrinsics>> *)
Supplies(holds, n, b) == b \in DOMAIN holds[n] /\ holds[n][b][1] /\ holds[n][b][2]
(* The answer to a request for a block: the whole block, or nothing. *)
Answer(holds, whole, n, b) == IF Supplies(holds, n, b) THEN whole[b] ELSE "none"
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
(* Each in the one as often as in the other: requests for different blocks are answered in any order. *)
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in {s[i] : i \in DOMAIN s} : Count(s, x) = Count(t, x)
Wholes(whole, bs) == [i \in DOMAIN bs |-> whole[bs[i]]]
(* What a peer has handed on after the announcements bs, of which it was sent the blocks for which sent holds. *)
HandsOn(whole, bs, sent(_)) == LET Ok(b) == sent(b) IN Wholes(whole, SelectSeq(bs, Ok))
Keeps(holds, n, b) == [holds EXCEPT ![n] = [x \in DOMAIN holds[n] \cup {b} |-> IF x = b THEN <<TRUE, TRUE>> ELSE holds[n][x]]]
===============================================================================
