---------------------------- MODULE RequestModel ----------------------------
(* The life of one request over every sequence of soliciting, forgetting and providing: what its record says of any slot
   recent enough is what was the case in that slot, though the record never holds more than three slots. *)
EXTENDS Requests, FiniteSets
CONSTANTS D, MaxSlot, MaxOps
VARIABLES now, asked, s, kept, avail, ops    \* kept: the preimage is stored; avail: slots after whose blocks it was available
vars == <<now, asked, s, kept, avail, ops>>
Init == now = 1 /\ asked = FALSE /\ s = <<>> /\ kept = FALSE /\ avail = {} /\ ops = 0
On(q, r) == q /\ Len(r) \in {1, 3}
Mark(q, r) == avail' = (IF On(q, r) THEN avail \cup {now} ELSE avail \ {now})
Solicit == /\ ops < MaxOps /\ ops' = ops + 1 /\ (~asked \/ MaySolicit(s)) /\ asked' = TRUE
           /\ s' = (IF asked THEN Solicited(s, now) ELSE <<>>) /\ Mark(TRUE, s') /\ UNCHANGED <<now, kept>>
Forget == /\ ops < MaxOps /\ ops' = ops + 1 /\ asked /\ MayForget(s, now, D)
          /\ IF Disappears(s) THEN asked' = FALSE /\ s' = <<>> /\ kept' = FALSE ELSE asked' = TRUE /\ s' = Forgotten(s, now) /\ kept' = kept
          /\ Mark(asked', s') /\ UNCHANGED now
(* the block's preimages come last; a new slot begins *)
Provide == /\ asked /\ s = <<>> /\ s' = <<now>> /\ kept' = TRUE /\ Mark(TRUE, s') /\ UNCHANGED <<now, asked, ops>>
Tick == /\ now < MaxSlot /\ \E k \in 1..(D + 1) : LET t == now + k IN t <= MaxSlot /\ now' = t /\ avail' = (IF On(asked, s) THEN avail \cup (now..t) ELSE avail)
        /\ ops' = 0 /\ UNCHANGED <<asked, s, kept>>
Next == Solicit \/ Forget \/ Provide \/ Tick
Spec == Init /\ [][Next]_vars
Shape == Len(s) <= 3 /\ (\A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]) /\ (~asked => s = <<>>)
Recent == {t \in 1..now : t >= now - D}
LookupExact == \A t \in Recent : (asked /\ Covered(s, t)) = (t \in avail)
(* what may be looked up is stored; nothing is stored that nobody asked for *)
StoredRight == kept = (asked /\ s # <<>>)
=============================================================================
