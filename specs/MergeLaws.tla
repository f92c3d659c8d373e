------------------------------ MODULE MergeLaws ------------------------------
(* Merging what services did side by side: for every set of effects of three services on a small state, the outcome does not depend on
   the order in which they are taken, keeps the sum of balances, and gives each privilege to whom its holders said. *)
EXTENDS Accumulate, FiniteSets
CONSTANTS Rich   \* TRUE: also try removals and creations
VARIABLES rs, stage
vars == <<rs, stage>>
Services == {"1", "2", "3"}
Acct(b) == [bal |-> b, st |-> <<>>, pre |-> <<>>, look |-> <<>>]
Base == [acc |-> [s \in Services |-> Acct("10")], man |-> "1", asg |-> <<"2">>, des |-> "3", reg |-> "1", always |-> <<>>, queue |-> <<"q">>, staging |-> "v"]
(* what one service may have done: spend, remove another, create one, give away what it holds *)
Spent(h) == {[Base EXCEPT !.acc[h].bal = BSub("10", x)] : x \in {"0", "3"}}
Removed(h, x) == IF Rich /\ h = "1" THEN {x, [x EXCEPT !.acc = [s \in DOMAIN x.acc \ {"3"} |-> IF s = h THEN Acct(BAdd(x.acc[h].bal, x.acc["3"].bal)) ELSE x.acc[s]]]} ELSE {x}
Created(h, x) == IF Rich THEN {x, [x EXCEPT !.acc = [s \in DOMAIN x.acc \cup {"4" \o h} |-> IF s = "4" \o h THEN Acct("2") ELSE IF s = h THEN Acct(BSub(x.acc[h].bal, "2")) ELSE x.acc[s]]]} ELSE {x}
Given(h, x) == (IF h = "1" THEN {[x EXCEPT !.man = m, !.asg = <<a>>, !.des = d] : m \in {"1", "2"}, a \in {"2", "3"}, d \in {"3", "1"}} ELSE {x})
               \cup (IF h = "2" THEN {[x EXCEPT !.asg = <<a>>, !.queue = <<"p">>] : a \in {"2", "1"}} ELSE {})
               \cup (IF h = "3" THEN {[x EXCEPT !.staging = "w"]} ELSE {})
Xs(h) == UNION {UNION {UNION {Given(h, z) : z \in Created(h, y)} : y \in Removed(h, x)} : x \in Spent(h)}
Result(h, x) == [host |-> h, x |-> x @@ [prov |-> {}]]
Init == stage = 0 /\ rs = <<>>
Next == \/ stage < 3 /\ stage' = stage + 1 /\ \E x \in Xs(ToString(stage + 1)) : rs' = Append(rs, Result(ToString(stage + 1), x))
        \/ stage < 3 /\ stage' = stage + 1 /\ rs' = rs       \* this one did not run
Spec == Init /\ [][Next]_vars
Orders == {p \in [1..Len(rs) -> 1..Len(rs)] : \A i, j \in 1..Len(rs) : p[i] = p[j] => i = j}
M(s) == Merge(Base, s, Services, 5)
Done == stage = 3
AnyOrder == Done /\ ~Clash(Base, rs) => \A p \in Orders : M([i \in 1..Len(rs) |-> rs[p[i]]]) = M(rs)
Total(acc) == SumOf([s \in DOMAIN acc |-> acc[s].bal])
Ran(h) == \E k \in DOMAIN rs : rs[k].host = h
By(h) == rs[CHOOSE k \in DOMAIN rs : rs[k].host = h].x
(* nothing is created: what is left is what each service left to itself, the newcomers, and those untouched *)
KeepsSum == Done /\ ~Clash(Base, rs) => LET m == M(rs) gone == \E k \in DOMAIN rs : "3" \notin DOMAIN rs[k].x.acc IN
  IF gone THEN "3" \notin DOMAIN m.acc
  ELSE BAdd(Total(m.acc), SumOf([s \in {z \in Services : Ran(z)} |-> BSub(Total(Base.acc), Total(By(s).acc))])) = Total(Base.acc)
Own == Done => LET m == M(rs) IN \A s \in Services : Ran(s) /\ s \in DOMAIN m.acc => m.acc[s] = By(s).acc[s]
Privileges == Done => LET m == M(rs) IN
  /\ m.man = (IF Ran("1") THEN By("1").man ELSE "1")
  /\ m.asg[1] = (IF Ran("1") /\ By("1").asg[1] # "2" THEN By("1").asg[1] ELSE IF Ran("2") THEN By("2").asg[1] ELSE "2")
  /\ m.queue[1] = (IF Ran("2") THEN By("2").queue[1] ELSE "q")
  /\ m.staging = (IF Ran("3") THEN By("3").staging ELSE "v")
=============================================================================
