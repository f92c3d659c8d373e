------------------------------ MODULE GossipModel ------------------------------
(* Every way announcements and blocks travel from one author to its peers, octet by octet, cut anywhere, over connections that
   may close at any moment. A message of n octets is the octets <<m, 1>>..<<m, n>>. *)
EXTENDS Gossip, TLC
CONSTANTS Peers, Blocks, MaxTold, Mortal    \* blocks are numbers, which say how long they are; Mortal: peers that may go
VARIABLES store,  \* the blocks the author holds: block -> <<header, extrinsics>>
          told,   \* the announcements made, in order
          open,   \* the peers still connected
          up,     \* peer -> octets of announcements on their way
          inbox,  \* peer -> octets received and not yet understood
          heard,  \* peer -> announcements understood, in order
          wire,   \* peer -> requests under way: for each announcement heard, Asked, or the octets of the answer still to come
          part,   \* peer -> octets of each answer received so far
          got     \* peer -> blocks handed on
vars == <<store, told, open, up, inbox, heard, wire, part, got>>
Msg(b, n) == [i \in 1..n |-> <<b, i>>]
Short(b) == b       \* octets of its announcement
Long(b) == b        \* octets of the block itself
Asked == <<<<0, 0>>>>
Done == <<<<0, 1>>>>
H == [A |-> store]
Init == /\ store = [b \in Blocks |-> <<FALSE, FALSE>>] /\ told = <<>> /\ open = Peers
        /\ up = [p \in Peers |-> <<>>] /\ inbox = up /\ heard = up /\ wire = up /\ part = up /\ got = up
(* A block is stored whole before anybody hears of it. *)
Author(b) == /\ ~store[b][1] /\ \E x \in {1, 2} : IF x = 1 THEN ~store[b][2] /\ store' = [store EXCEPT ![b][2] = TRUE]
                                                          ELSE store[b][2] /\ store' = [store EXCEPT ![b][1] = TRUE]
             /\ UNCHANGED <<told, open, up, inbox, heard, wire, part, got>>
Announce(b) == /\ store[b][1] /\ Len(told) < MaxTold /\ told' = Append(told, b)
               /\ up' = [p \in Peers |-> IF p \in open THEN up[p] \o Msg(b, Short(b)) ELSE up[p]]
               /\ UNCHANGED <<store, open, inbox, heard, wire, part, got>>
(* The announcements at the head of a stretch of octets, and what is left. *)
RECURSIVE Read(_)
Read(s) == IF s = <<>> \/ Len(s) < Short(s[1][1]) THEN <<<<>>, s>>
           ELSE LET n == Short(s[1][1])   r == Read(SubSeq(s, n + 1, Len(s))) IN <<<<s[1][1]>> \o r[1], r[2]>>
Arrive(p) == /\ p \in open /\ up[p] # <<>>
             /\ \E n \in 1..Len(up[p]) :
                  LET r == Read(inbox[p] \o SubSeq(up[p], 1, n))
                  IN /\ up' = [up EXCEPT ![p] = SubSeq(@, n + 1, Len(@))] /\ inbox' = [inbox EXCEPT ![p] = r[2]]
                     /\ heard' = [heard EXCEPT ![p] = @ \o r[1]]
                     /\ wire' = [wire EXCEPT ![p] = @ \o [i \in DOMAIN r[1] |-> Asked]]
                     /\ part' = [part EXCEPT ![p] = @ \o [i \in DOMAIN r[1] |-> <<>>]]
             /\ UNCHANGED <<store, told, open, got>>
Serve(p, i) == /\ p \in open /\ wire[p][i] = Asked
               /\ wire' = [wire EXCEPT ![p][i] = IF Supplies(H, "A", heard[p][i]) THEN Msg(heard[p][i], Long(heard[p][i])) ELSE <<>>]
               /\ UNCHANGED <<store, told, open, up, inbox, heard, part, got>>
(* The answer is taken for whole where the stream ends, and not before. *)
Receive(p, i) == /\ p \in open /\ wire[p][i] \notin {Asked, Done}
                 /\ IF wire[p][i] = <<>>
                    THEN /\ wire' = [wire EXCEPT ![p][i] = Done] /\ UNCHANGED part
                         /\ got' = [got EXCEPT ![p] = IF part[p][i] = Msg(heard[p][i], Long(heard[p][i])) THEN Append(@, heard[p][i]) ELSE @]
                    ELSE \E n \in 1..Len(wire[p][i]) : /\ part' = [part EXCEPT ![p][i] = @ \o SubSeq(wire[p][i], 1, n)]
                                                       /\ wire' = [wire EXCEPT ![p][i] = SubSeq(@, n + 1, Len(@))] /\ UNCHANGED got
                 /\ UNCHANGED <<store, told, open, up, inbox, heard>>
Leave(p) == /\ p \in open \cap Mortal /\ open' = open \ {p} /\ UNCHANGED <<store, told, up, inbox, heard, wire, part, got>>
Moves(p) == Arrive(p) \/ \E i \in DOMAIN wire[p] : Serve(p, i) \/ Receive(p, i)
Next == (\E b \in Blocks : Author(b) \/ Announce(b)) \/ (\E p \in Peers : Moves(p) \/ Leave(p))
Spec == Init /\ [][Next]_vars /\ \A p \in Peers : WF_vars(Moves(p))
Prefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
(* Announcements are understood once each and in the order they were made. *)
InTurn == \A p \in Peers : Prefix(heard[p], told)
(* Nothing is handed on that was not announced, or more often than it was announced. *)
NothingMore == \A p \in Peers : \A b \in Blocks : Count(got[p], b) <= Count(told, b)
(* Whatever has been announced can be supplied. *)
Ready == \A i \in DOMAIN told : Supplies(H, "A", told[i])
(* Whoever stays connected is handed every announced block, whatever becomes of the others. *)
Reached == \A p \in Peers \ Mortal : \A n \in 1..MaxTold : (Len(told) >= n) ~> (Len(got[p]) >= n)
Settled == \A p \in open : (up[p] = <<>> /\ \A i \in DOMAIN wire[p] : wire[p][i] = Done) => (SameBag(told, got[p]) \/ p \in Mortal)
===============================================================================
