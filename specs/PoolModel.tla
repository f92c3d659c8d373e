----------------------------- MODULE PoolModel -----------------------------
(* Threads that hand extrinsics in and read the lists, over two locks: one on what is held, one on the lists.          *)
EXTENDS Pool
CONSTANTS Adders, Readers, Items, Max,
          OneOrder     (* readers take the locks in the order in which who hands something in does *)
VARIABLES p, turn, todo, got, w, r
vars == <<p, turn, todo, got, w, r>>
(* w[lock]: the threads that write under it, r[lock]: those that read under it *)
Locks == {"held", "lists"}
Threads == Adders \cup Readers
K == Key(0, 0)
Init == /\ p = EmptyPool /\ w = [k \in Locks |-> {}] /\ r = [k \in Locks |-> {}]
        /\ turn = [t \in Threads |-> 0] /\ got = [t \in Readers |-> <<>>]
        /\ todo \in [Adders -> Items]
Seq1 == <<"held", "lists">>
Order == IF OneOrder THEN Seq1 ELSE <<"lists", "held">>
Take(t, lock, write) == IF write THEN w[lock] = {} /\ r[lock] = {} /\ w' = [w EXCEPT ![lock] = {t}] /\ UNCHANGED r
                        ELSE w[lock] = {} /\ r' = [r EXCEPT ![lock] = @ \cup {t}] /\ UNCHANGED w
Drop(t) == w' = [k \in Locks |-> w[k] \ {t}] /\ r' = [k \in Locks |-> r[k] \ {t}]
AddStep(t) ==
  \/ turn[t] \in {0, 1} /\ Take(t, Seq1[turn[t] + 1], TRUE) /\ turn' = [turn EXCEPT ![t] = @ + 1] /\ UNCHANGED <<p, todo, got>>
  \/ turn[t] = 2 /\ Drop(t) /\ turn' = [turn EXCEPT ![t] = 3] /\ p' = (IF Refused(p, Max, todo[t]) THEN p ELSE Add(p, K, todo[t])) /\ UNCHANGED <<todo, got>>
ReadStep(t) ==
  \/ turn[t] \in {0, 1} /\ Take(t, Order[turn[t] + 1], FALSE) /\ turn' = [turn EXCEPT ![t] = @ + 1] /\ UNCHANGED <<p, todo, got>>
  \/ turn[t] = 2 /\ Drop(t) /\ turn' = [turn EXCEPT ![t] = 3] /\ got' = [got EXCEPT ![t] = Listed(p, K)] /\ UNCHANGED <<p, todo>>
Next == \/ \E t \in Adders : AddStep(t)
        \/ \E t \in Readers : ReadStep(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Adders : WF_vars(AddStep(t)) /\ \A u \in Readers : WF_vars(ReadStep(u))
----------------------------------------------------------------------------
Bounded == Cardinality(p.held) <= Max
Once == Cardinality(Range(Listed(p, K))) = Len(Listed(p, K))
Same == Range(Listed(p, K)) = p.held
Seen == \A t \in Readers : got[t] = SubSeq(Listed(p, K), 1, Len(got[t]))
Ends == <>(\A t \in Threads : turn[t] = 3)
=============================================================================
