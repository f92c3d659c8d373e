----------------------------- MODULE StepsModel -----------------------------
(* The steps of a block's transition that run side by side, by what each reads (as the block found it, or as it stands) *)
(* and writes; a stage begins when the one before it has ended. What is written stands for everything the writer had    *)
(* read until then. Whatever the order in which steps of one stage take their turns, the outcome must be one and the    *)
(* same: that of taking them one after the other.                                                                       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Careless     (* steps that read as it stands what they should read as the block found it *)
VARIABLES stage, pc, seen, now
vars == <<stage, pc, seen, now>>
F(c) == <<"found", c>>
S(c) == <<"stands", c>>
W(c) == <<"write", c>>
Comps == {"slot", "eta", "eta0", "active", "past", "staging", "safrole", "disputes", "reports", "history", "accq", "acch", "outputs", "pool", "queue", "stats", "services", "lookups", "used"}
Steps ==
  [slot     |-> <<S("slot"), W("slot")>>,
   disputes |-> <<F("disputes"), F("active"), F("past"), S("disputes"), W("disputes")>>,
   entropy  |-> <<F("eta"), F("eta0"), W("eta")>>,
   past     |-> <<F("active"), W("past")>>,
   active   |-> <<F("safrole"), W("active")>>,
   root     |-> <<F("history"), W("history")>>,
   safrole  |-> <<S("slot"), F("staging"), S("disputes"), F("safrole"), S("active"), S("eta"), W("safrole")>>,
   reports  |-> <<S("disputes"), S("reports"), W("reports"), F("active"), S("reports"), W("reports"), S("active"), S("past"), S("eta"), S("slot"), S("history"), F("pool"), F("accq"), F("acch"), W("reports")>>,
   entropy0 |-> <<S("eta0"), W("eta0")>>,
   accum    |-> <<S("reports"), S("accq"), S("acch"), S("slot"), S("eta0"), S("services"), W("services"), W("lookups"), W("staging"), W("queue"), W("acch"), W("accq")>>,
   outputs  |-> <<S("accq"), W("outputs")>>,
   pool     |-> <<S("queue"), S("slot"), S("pool"), W("pool")>>,
   met      |-> <<S("slot"), W("used")>>,
   stats    |-> <<S("slot"), S("active"), S("stats"), W("stats")>>,
   preimage |-> <<F("lookups"), S("lookups"), S("slot"), W("lookups")>>,
   history  |-> <<S("history"), S("outputs"), W("history")>>]
Stages == <<{"slot"}, {"disputes", "entropy", "past", "active", "root"}, {"safrole"}, {"reports", "entropy0"}, {"accum"}, {"outputs"}, {"pool", "met", "stats", "preimage"}, {"history"}>>
Names == DOMAIN Steps
Reads(t, op) == IF op[1] = "found" /\ t \in Careless THEN "stands" ELSE op[1]
Found == [c \in Comps |-> <<c>>]
(* one operation of step t, on what it has seen and what stands *)
Did(t, op, s, v) == LET k == Reads(t, op) IN
  IF k = "write" THEN [seen |-> s, now |-> [v EXCEPT ![op[2]] = <<t, s>>]]
  ELSE [seen |-> Append(s, IF k = "found" THEN Found[op[2]] ELSE v[op[2]]), now |-> v]
Init == stage = 1 /\ pc = [t \in Names |-> 1] /\ seen = [t \in Names |-> <<>>] /\ now = Found
Ended(t) == pc[t] > Len(Steps[t])
Turn(t) == /\ stage <= Len(Stages) /\ t \in Stages[stage] /\ ~Ended(t)
           /\ LET d == Did(t, Steps[t][pc[t]], seen[t], now) IN seen' = [seen EXCEPT ![t] = d.seen] /\ now' = d.now
           /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED stage
Forth == /\ stage <= Len(Stages) /\ \A t \in Stages[stage] : Ended(t)
         /\ stage' = stage + 1 /\ seen' = [t \in Names |-> <<>>] /\ UNCHANGED <<pc, now>>
Next == Forth \/ \E t \in Names : Turn(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
(* The same one after the other. *)
RECURSIVE Alone(_, _, _, _)
Alone(t, k, s, v) == IF k > Len(Steps[t]) THEN v ELSE LET d == Did(t, Steps[t][k], s, v) IN Alone(t, k + 1, d.seen, d.now)
RECURSIVE AllOf(_, _)
AllOf(T, v) == IF T = {} THEN v ELSE LET t == CHOOSE t \in T : TRUE IN AllOf(T \ {t}, Alone(t, 1, <<>>, v))
RECURSIVE Serially(_, _)
Serially(k, v) == IF k > Len(Stages) THEN v ELSE Serially(k + 1, AllOf(Stages[k], v))
OneOutcome == stage > Len(Stages) => now = Serially(1, Found)
(* No step meets what another of its stage has written: the reason why. *)
NoRace == \A k \in DOMAIN Stages : \A t, u \in Stages[k] : \A i \in DOMAIN Steps[t], j \in DOMAIN Steps[u] :
            t = u \/ ~(Steps[t][i][1] = "write" /\ Reads(u, Steps[u][j]) # "found" /\ Steps[t][i][2] = Steps[u][j][2])
Ends == <>(stage > Len(Stages))
=============================================================================
