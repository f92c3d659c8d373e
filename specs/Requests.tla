------------------------------ MODULE Requests ------------------------------
(* A service's request for a preimage: the slots at which it became available, unavailable, available again.
   d: slots for which a forgotten preimage is kept. *)
EXTENDS Integers, Sequences
Lapsed(s, now, d) == s[2] + d < now
MaySolicit(s) == Len(s) = 2                                  \* once it exists
Solicited(s, now) == Append(s, now)
MayForget(s, now, d) == IF Len(s) < 2 THEN TRUE ELSE Lapsed(s, now, d)
Disappears(s) == Len(s) \in {0, 2}
Forgotten(s, now) == IF Len(s) = 1 THEN Append(s, now) ELSE <<s[3], now>>
(* available at slot t *)
Covered(s, t) == /\ s # <<>> /\ s[1] <= t
                 /\ Len(s) >= 2 => t < s[2] \/ (Len(s) = 3 /\ s[3] <= t)
=============================================================================
