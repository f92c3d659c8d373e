------------------------------ MODULE Disputes ------------------------------
(* Verdicts, culprits and faults. *)
EXTENDS Safrole

NoDisputes == [v |-> <<>>, c |-> <<>>, f |-> <<>>]
Votes(v) == Cardinality({i \in DOMAIN v.j : v.j[i].vote})
Outcome(v) == LET n == Votes(v) IN
  IF n = SuperMajority THEN "good" ELSE IF n = 0 THEN "bad" ELSE IF n = OneThird THEN "wonky" ELSE "none"

NewOffenders(d) == Map(d.c, LAMBDA x : x.k) \o Map(d.f, LAMBDA x : x.k)
AllOffenders(st, d) == Dedup(SortHex(st.disputes.off \o NewOffenders(d)))
Judged(dp) == dp.good \o dp.bad \o dp.wonky

VerdictOf(d, r) == {i \in DOMAIN d.v : d.v[i].r = r}

DisputesGuard(st, d) ==
  LET known == (Elems(Map(st.active, LAMBDA v : v.e)) \cup Elems(Map(st.past, LAMBDA v : v.e))) \ Elems(st.disputes.off)
  IN
  /\ StrictHex(Map(d.v, LAMBDA x : x.r))
  /\ StrictHex(Map(d.c, LAMBDA x : x.k))
  /\ StrictHex(Map(d.f, LAMBDA x : x.k))
  /\ \A i \in DOMAIN d.v :
       LET v == d.v[i] IN
       /\ v.ep = Epoch(st.slot) \/ v.ep = Epoch(st.slot) - 1
       /\ ~In(v.r, Judged(st.disputes))
       /\ Outcome(v) # "none"
       /\ Outcome(v) = "good" => \E k \in DOMAIN d.f : d.f[k].r = v.r
       /\ Outcome(v) = "bad" => Cardinality({k \in DOMAIN d.c : d.c[k].r = v.r}) >= 2
       /\ Len(v.j) = SuperMajority
       /\ StrictInt(Map(v.j, LAMBDA x : x.i))
       /\ LET set == IF v.ep = Epoch(st.slot) THEN st.active ELSE st.past IN
          \A k \in DOMAIN v.j :
            LET x == v.j[k] IN
            /\ x.i < V
            /\ SigOK(x.sig, set[x.i + 1].e, (IF x.vote THEN X1 ELSE X0) \o v.r)
  /\ \A i \in DOMAIN d.c :
       LET x == d.c[i] IN
       /\ \E k \in VerdictOf(d, x.r) : Outcome(d.v[k]) = "bad"
       /\ x.k \in known
       /\ SigOK(x.sig, x.k, XG \o x.r)
  /\ \A i \in DOMAIN d.f :
       LET x == d.f[i] IN
       /\ \E k \in VerdictOf(d, x.r) : Outcome(d.v[k]) = (IF x.vote THEN "bad" ELSE "good")
       /\ x.k \in known
       /\ SigOK(x.sig, x.k, (IF x.vote THEN X1 ELSE X0) \o x.r)

WithOutcome(d, o) == Map(SelectSeq(d.v, LAMBDA v : Outcome(v) = o), LAMBDA v : v.r)
NextDisputes(st, d) ==
  [good |-> SortHex(st.disputes.good \o WithOutcome(d, "good")),
   bad |-> SortHex(st.disputes.bad \o WithOutcome(d, "bad")),
   wonky |-> SortHex(st.disputes.wonky \o WithOutcome(d, "wonky")),
   off |-> AllOffenders(st, d)]

(* pending reports judged not good are dropped *)
AfterDisputes(reports, d) ==
  LET gone == Elems(WithOutcome(d, "bad") \o WithOutcome(d, "wonky")) IN
  [c \in DOMAIN reports |-> IF reports[c] # <<>> /\ reports[c][1].r.h \in gone THEN <<>> ELSE reports[c]]
=============================================================================
