--------------------------- MODULE DisputesModel ---------------------------
(* Disputes on their own. Every validator but the dishonest ones signs only what is true of a report; the dishonest sign anything.
   All dispute extrinsics these signatures permit are tried in every order, across changes of the validator set. *)
EXTENDS Disputes
CONSTANTS Reps, Dishonest, MaxBlocks, MaxV   \* MaxV: verdicts per extrinsic
VARIABLES st, truth, n, times   \* truth: is the report right; times: how often each has been judged
vars == <<st, truth, n, times>>
KeyE(i) == "0" \o ToString(i)
Val(i) == [b |-> "b", e |-> KeyE(i), h |-> ""]
From(k) == [i \in 1..V |-> Val(i + k - 1)]
Init == /\ truth \in [Reps -> BOOLEAN] /\ n = 0 /\ times = [r \in Reps |-> 0]
        /\ \E rep \in {<<>>} \cup {<<[r |-> [h |-> r], t |-> 0]>> : r \in Reps} :
             st = [slot |-> E, active |-> From(2), past |-> From(1),
                   disputes |-> [good |-> <<>>, bad |-> <<>>, wonky |-> <<>>, off |-> <<>>], reports |-> [c \in 1..C |-> IF c = 1 THEN rep ELSE <<>>]]

Signs(k, vote, r) == k \in Dishonest \/ vote = truth[r]
SetAt(ep) == IF ep = Epoch(st.slot) THEN st.active ELSE st.past
RECURSIVE Up(_)
Up(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Up(S \ {m})
UpH(S, K_(_)) == SortBy(SetToSeq2(S), K_)
(* validly signed ballots of exactly as many validators as needed *)
Voters == {s \in SUBSET (0..(V - 1)) : Cardinality(s) = SuperMajority}
Ballots(r, ep) ==
  {Map(Up(p[1]), LAMBDA i : [i |-> i, vote |-> i \in p[2], sig |-> [k |-> SetAt(ep)[i + 1].e, m |-> (IF i \in p[2] THEN X1 ELSE X0) \o r]]) :
     p \in {q \in Voters \X SUBSET (0..(V - 1)) : q[2] \subseteq q[1] /\ \A i \in q[1] : Signs(SetAt(ep)[i + 1].e, i \in q[2], r)}}
Epochs == {Epoch(st.slot), Epoch(st.slot) - 1}
Verdicts == UNION {{[r |-> r, ep |-> ep, j |-> j] : j \in Ballots(r, ep)} : r \in Reps, ep \in Epochs}
Keys == {KeyE(i) : i \in 1..(V + 3)}
Culprits == {[r |-> p[1], k |-> p[2], sig |-> [k |-> p[2], m |-> XG \o p[1]]] : p \in {q \in Reps \X Keys : Signs(q[2], TRUE, q[1])}}
Faults == {[r |-> p[1], vote |-> p[3], k |-> p[2], sig |-> [k |-> p[2], m |-> (IF p[3] THEN X1 ELSE X0) \o p[1]]] : p \in {q \in Reps \X Keys \X BOOLEAN : Signs(q[2], q[3], q[1])}}
Upto(S, k) == {s \in SUBSET S : Cardinality(s) <= k}
Groups(vs) == LET rs == {x.r : x \in vs} IN
  {[v |-> UpH(vs, LAMBDA x : x.r), c |-> UpH(c, LAMBDA x : x.k), f |-> UpH(f, LAMBDA x : x.k)] :
     c \in Upto({x \in Culprits : x.r \in rs}, 2), f \in Upto({x \in Faults : x.r \in rs}, 1)}
Step(d) ==
  /\ DisputesGuard(st, d)
  /\ st' = [st EXCEPT !.disputes = NextDisputes(st, d), !.reports = AfterDisputes(st.reports, d)]
  /\ times' = [r \in Reps |-> times[r] + Cardinality({i \in DOMAIN d.v : d.v[i].r = r})]
Rotate_ == /\ st' = [st EXCEPT !.slot = @ + E, !.past = st.active, !.active = From(Epoch(st.slot) + 2)]
           /\ UNCHANGED times
Next == n < MaxBlocks /\ n' = n + 1 /\ UNCHANGED truth
        /\ ((\E vs \in Upto(Verdicts, MaxV) : \E d \in Groups(vs) : Step(d)) \/ Rotate_)
Spec == Init /\ [][Next]_vars

Sets_ == [g |-> Elems(st.disputes.good), b |-> Elems(st.disputes.bad), w |-> Elems(st.disputes.wonky)]
(* a report is judged at most once, with one outcome, and the record is exact *)
JudgedOnce == /\ \A r \in Reps : times[r] <= 1 /\ (times[r] = 1 <=> r \in Sets_.g \cup Sets_.b \cup Sets_.w)
              /\ Sets_.g \cap Sets_.b = {} /\ Sets_.g \cap Sets_.w = {} /\ Sets_.b \cap Sets_.w = {}
              /\ StrictHex(st.disputes.good) /\ StrictHex(st.disputes.bad) /\ StrictHex(st.disputes.wonky) /\ StrictHex(st.disputes.off)
(* signatures that tell the truth never make anyone an offender, however the others sign *)
HonestSafe == Elems(st.disputes.off) \subseteq Dishonest
(* with one honest voter among every quorum no verdict contradicts the truth *)
TruthHolds == \A r \in Reps : (r \in Sets_.g => truth[r]) /\ (r \in Sets_.b => ~truth[r])
(* a report judged anything but good is not pending *)
NotPending == \A c \in 1..C : st.reports[c] # <<>> => st.reports[c][1].r.h \notin Sets_.b \cup Sets_.w
GoodStays == [][\A c \in 1..C : st.reports[c] # st'.reports[c] => st'.reports[c] = <<>> /\ st.reports[c][1].r.h \in Elems(st'.disputes.bad) \cup Elems(st'.disputes.wonky)]_vars
OnlyGrows == [][/\ Sets_.g \subseteq Elems(st'.disputes.good) /\ Sets_.b \subseteq Elems(st'.disputes.bad) /\ Sets_.w \subseteq Elems(st'.disputes.wonky)
                /\ Elems(st.disputes.off) \subseteq Elems(st'.disputes.off)]_vars
(* nobody becomes an offender without a verdict in the same block, and a good verdict brings at least one, a bad one at least two *)
Punished == [][LET new == Elems(st'.disputes.off) \ Elems(st.disputes.off) IN
  /\ new # {} => times' # times
  /\ (Elems(st'.disputes.good) # Sets_.g => Cardinality(new) >= 1)
  /\ (Elems(st'.disputes.bad) # Sets_.b => Cardinality(new) >= 2)]_vars
=============================================================================
