----------------------------- MODULE TurnsModel -----------------------------
(* A node whose author takes its turns while its importer takes in the blocks of others, over one working state.       *)
(* Time passes evenly or in leaps; a leap over several slots wakes the author as many times, all in the slot it ends in. *)
(* A job that works on the state first changes the working copy, then files the whole of it; one that fails drops it.   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxSlot,    (* slots 1..MaxSlot *)
          Mine,       (* the slots this node owns *)
          MaxRivals,  (* blocks of others offered *)
          Locked      (* jobs wait for each other *)
VARIABLES now, wakes, jobs, chain, filed, dirty, lock, rivals
vars == <<now, wakes, jobs, chain, filed, dirty, lock, rivals>>
Genesis == [slot |-> 0, mine |-> FALSE, id |-> 0]
Best == chain[Len(chain)]
(* chain: the blocks taken for the node's own; filed: those whose changes the state holds, in the order they got there *)
Init == now = 0 /\ wakes = 0 /\ jobs = <<>> /\ chain = <<Genesis>> /\ filed = <<>> /\ dirty = <<>> /\ lock = 0 /\ rivals = 0
Leap == \E d \in 1..(MaxSlot - now) : now' = now + d /\ wakes' = wakes + d /\ UNCHANGED <<jobs, chain, filed, dirty, lock, rivals>>
Wake == wakes > 0 /\ wakes' = wakes - 1 /\ jobs' = Append(jobs, [kind |-> "turn", slot |-> now, pc |-> "start"]) /\ UNCHANGED <<now, chain, filed, dirty, lock, rivals>>
(* A block of another arrives, built on what was the head then; it may turn out to be invalid only halfway. *)
Offer == /\ rivals < MaxRivals /\ now > 0
         /\ \E s \in {t \in 1..now : t > Best.slot /\ t \notin Mine}, good \in BOOLEAN :
              jobs' = Append(jobs, [kind |-> "import", slot |-> s, pc |-> "start", parent |-> Best.id, good |-> good])
         /\ rivals' = rivals + 1 /\ UNCHANGED <<now, wakes, chain, filed, dirty, lock>>
Set(j, pc) == jobs' = [jobs EXCEPT ![j].pc = pc]
Free(j) == ~Locked \/ lock \in {0, j}
BlockOf(j) == [slot |-> jobs[j].slot, mine |-> jobs[j].kind = "turn", id |-> j]
Start(j) == /\ jobs[j].pc = "start" /\ Free(j)
            /\ LET go == /\ jobs[j].slot > Best.slot
                         /\ IF jobs[j].kind = "turn" THEN jobs[j].slot \in Mine ELSE jobs[j].parent = Best.id
               IN IF go THEN Set(j, "work") /\ lock' = (IF Locked THEN j ELSE lock) ELSE Set(j, "done") /\ UNCHANGED lock
            /\ UNCHANGED <<now, wakes, chain, filed, dirty, rivals>>
Work(j) == /\ jobs[j].pc = "work" /\ dirty' = Append(dirty, BlockOf(j))
           /\ IF jobs[j].kind = "turn" THEN chain' = Append(chain, BlockOf(j)) /\ Set(j, "file")     (* heard of before its state is known *)
              ELSE UNCHANGED chain /\ Set(j, IF jobs[j].good THEN "file" ELSE "fail")
           /\ UNCHANGED <<now, wakes, filed, lock, rivals>>
Leave == lock' = IF Locked THEN 0 ELSE lock
File(j) == /\ jobs[j].pc = "file" /\ filed' = filed \o dirty /\ dirty' = <<>> /\ Set(j, "done") /\ Leave
           /\ chain' = (IF jobs[j].kind = "import" THEN Append(chain, BlockOf(j)) ELSE chain)
           /\ UNCHANGED <<now, wakes, rivals>>
Fail(j) == jobs[j].pc = "fail" /\ dirty' = <<>> /\ Set(j, "done") /\ Leave /\ UNCHANGED <<now, wakes, chain, filed, rivals>>
Next == Leap \/ Wake \/ Offer \/ \E j \in DOMAIN jobs : Start(j) \/ Work(j) \/ File(j) \/ Fail(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Wake) /\ \A j \in 1..(MaxSlot + MaxRivals) : WF_vars(j \in DOMAIN jobs /\ (Start(j) \/ Work(j) \/ File(j) \/ Fail(j)))
----------------------------------------------------------------------------
Idle == wakes = 0 /\ \A j \in DOMAIN jobs : jobs[j].pc = "done"
(* What the state holds is what the blocks of the chain did, in their order; nothing else, nothing lost. *)
Serial == Idle => filed = Tail(chain) /\ dirty = <<>>
Whole == \E k \in 1..Len(chain) : filed = SubSeq(Tail(chain), 1, k - 1)
Forward == \A k \in 1..(Len(chain) - 1) : chain[k].slot < chain[k + 1].slot
Own == \A k \in DOMAIN chain : chain[k].mine <=> chain[k].slot \in Mine
(* When all is quiet the node has used the slot it is in, if that is its own and no block came from beyond it. *)
Used == Idle /\ now \in Mine => \E k \in DOMAIN chain : chain[k].slot >= now
Settles == [](now = MaxSlot => <>Idle)
=============================================================================
