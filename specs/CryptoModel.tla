---------------------------- MODULE CryptoModel ----------------------------
(* Key holders, honest and not, sign; anyone collects, replays and re-addresses what was signed; a checker accepts or refuses.
   A dishonest holder can also bend: prove an output that differs from its own by a point of small order. Where the checker asks that
   outputs lie in the right group, a key has one output for a context and one ticket for an attempt. *)
EXTENDS Integers, FiniteSets
CONSTANTS Keys, Bad, Ctxs, Msgs, Checked   \* Bad: holders that bend; Checked: outputs outside the group are refused
Rings == {R \in SUBSET Keys : R # {}}
Bends == {0, 1}
VARIABLES made,      \* signatures in the world: [kind, by, ctx, msg, ring, bend]
          taken      \* what checkers accepted: [kind, who, ctx, msg, out]
vars == <<made, taken>>
Out(k, c, b) == <<k, c, b>>                      \* ideal outputs: never shared
Init == made = {} /\ taken = {}
Sign == \E k \in Keys : \E c \in Ctxs : \E m \in Msgs : \E b \in Bends :
  /\ b = 0 \/ k \in Bad
  /\ \/ made' = made \cup {[kind |-> "vrf", by |-> k, ring |-> {}, ctx |-> c, msg |-> m, bend |-> b]}
     \/ \E R \in Rings : k \in R /\ made' = made \cup {[kind |-> "ring", by |-> k, ring |-> R, ctx |-> c, msg |-> m, bend |-> b]}
  /\ Cardinality(made') < 4
  /\ UNCHANGED taken
Accepts(s, kind, who, ring, c, m) ==
  /\ s.kind = kind /\ s.ctx = c /\ s.msg = m
  /\ IF kind = "ring" THEN s.ring = ring ELSE s.by = who
  /\ Checked => s.bend = 0
(* anyone puts any signature to any question *)
Check == \E s \in made : \E c \in Ctxs : \E m \in Msgs :
  \/ \E w \in Keys : /\ Accepts(s, "vrf", w, {}, c, m)
                     /\ taken' = taken \cup {[kind |-> "vrf", by |-> w, ring |-> {}, ctx |-> c, msg |-> m, out |-> Out(s.by, c, s.bend)]} /\ UNCHANGED made
  \/ \E R \in Rings : /\ Accepts(s, "ring", s.by, R, c, m)
                      /\ taken' = taken \cup {[kind |-> "ring", by |-> 0, ring |-> R, ctx |-> c, msg |-> m, out |-> Out(s.by, c, s.bend)]} /\ UNCHANGED made
Next == Sign \/ Check
Spec == Init /\ [][Next]_vars
(* what was accepted was signed, over exactly that *)
OnlyMade == \A t \in taken : \E s \in made : s.kind = t.kind /\ s.ctx = t.ctx /\ s.msg = t.msg
                                             /\ (IF t.kind = "ring" THEN s.by \in t.ring ELSE s.by = t.by)
(* one output for a key and context, whichever way it is proven *)
OneOutput == \A t, u \in taken : t.kind = "vrf" /\ u.kind = "vrf" /\ t.by = u.by /\ t.ctx = u.ctx => t.out = u.out
(* no more tickets for an attempt (a context) than the ring has keys; a lone key's ring proof carries its plain output *)
Tickets == \A R \in Rings : \A c \in Ctxs : Cardinality({t.out : t \in {u \in taken : u.kind = "ring" /\ u.ring = R /\ u.ctx = c}}) <= Cardinality(R)
SameBothWays == \A t, u \in taken : t.kind = "ring" /\ u.kind = "vrf" /\ t.ring = {u.by} /\ t.ctx = u.ctx => t.out = u.out
=============================================================================
