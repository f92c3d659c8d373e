--------------------------- MODULE PipelineModel ---------------------------
(* The life of a work report, from guarantee through availability and the ready queue to accumulation: every arrival order,
   every dependency graph (cycles included), every count of assurances, skipped slots, judgements and gas shortage. *)
EXTENDS History
CONSTANTS Packages, MaxSlot, Skip, Judging   \* Judging: may pending reports be judged; Skip: how far a block may be from its parent
VARIABLES st,
          deps,    \* the dependency graph, fixed
          ctx,     \* package -> number of the block its context names, fixed when it is first reported
          done,    \* packages in the order they were accumulated
          blocks,  \* number of blocks so far
          last     \* what the last block brought
vars == <<st, deps, ctx, done, blocks, last>>
View == <<st, deps, ctx, done, blocks>>
BlockHash(k) == LEnc(k, 4)
RepOf(p, c) == [pkg |-> p, h |-> "f" \o p, core |-> c - 1, pre |-> SetToSeqH(deps[p]), lookup |-> <<>>, digests |-> <<>>, tracelen |-> 0, auth |-> "a", nseg |-> 0, len |-> 1,
                seg |-> p, anchor |-> BlockHash(ctx'[p]), asr |-> "s", abr |-> "b", lslot |-> MaxSlot, lanchor |-> "l"]
Init ==
  /\ deps \in [Packages -> SUBSET Packages] /\ \A p \in Packages : p \notin deps[p]
  /\ ctx = [p \in {} |-> 0] /\ done = <<>> /\ blocks = 1 /\ last = <<>>
  /\ st = [slot |-> 0, reports |-> [c \in 1..C |-> <<>>], accq |-> [i \in 1..E |-> <<>>], acch |-> [i \in 1..E |-> <<>>], svcs |-> <<>>,
           pool |-> [c \in 1..C |-> <<"a">>], history |-> [h |-> <<[hash |-> BlockHash(1), beefy |-> "b", sr |-> "s", pkgs |-> <<>>]>>, belt |-> <<>>]]
Counts == {0, SuperMajority - 1, SuperMajority}
Assur(n) == [i \in 1..V |-> [v |-> i - 1, bits |-> [c \in 1..C |-> IF i <= n[c] THEN 1 ELSE 0]]]
Judge(bad) == [v |-> Map(SetToSeqH(bad), LAMBDA h : [r |-> h, j |-> <<>>]), c |-> <<>>, f |-> <<>>]
Pend(rep) == {c \in 1..C : rep[c] # <<>>}
Step(t, bad, n, put, cut) ==
  LET rep1 == AfterDisputes(st.reports, Judge(bad)) IN
  \E cx \in [DOMAIN ctx \cup {put[c] : c \in DOMAIN put} -> 1..blocks] :
  /\ \A p \in DOMAIN ctx : cx[p] = ctx[p]
  /\ ctx' = cx
  /\ LET gs == [i \in 1..Cardinality(DOMAIN put) |-> LET c == CHOOSE c \in DOMAIN put : Cardinality({d \in DOMAIN put : d < c}) = i - 1 IN [rep |-> RepOf(put[c], c)]]
         b == [slot |-> t, assur |-> Assur(n), guar |-> gs, anc |-> <<>>]
         av == Available(b, rep1)
         rep2 == AfterAssurances(b, rep1)
         star == Accumulatable(st.accq, st.acch, av, t)
         k == Max2(0, Len(star) - cut)
         pkgs == {put[c] : c \in DOMAIN put}
         now == SubSeq(star, 1, k)
     IN /\ \A c \in 1..C : n[c] > 0 => rep1[c] # <<>>
        /\ Cardinality(pkgs) = Len(gs)
        /\ \A i \in DOMAIN gs : ReportGuard(st, b, gs[i].rep, st.history, rep2, pkgs, PkgsInHistory(st.history))
        /\ done' = done \o Map(now, LAMBDA q : q.pkg)
        /\ blocks' = blocks + 1
        /\ last' = [n |-> n, bad |-> bad, cut |-> cut]
        /\ st' = [st EXCEPT !.slot = t, !.reports = AfterGuarantees(b, rep2),
                            !.acch = NextAccHistory(@, star, k), !.accq = NextAccQueue(@, Waiting(av, st.acch), Pkgs(now), st.slot, t),
                            !.history = [h |-> Tail_(Append(@.h, [hash |-> BlockHash(blocks + 1), beefy |-> "b", sr |-> "s", pkgs |-> Map(gs, LAMBDA g : <<g.rep.pkg, g.rep.seg>>)]), H), belt |-> <<>>]]
Puts == UNION {[cs -> Packages] : cs \in SUBSET (1..C)}
Next == /\ \E t \in (st.slot + 1)..Min2(MaxSlot, st.slot + Skip) : \E n \in [1..C -> Counts] : \E put \in Puts : \E cut \in {0, 1} :
             \E bad \in IF Judging THEN SUBSET {st.reports[c][1].r.h : c \in Pend(st.reports)} ELSE {{}} : Step(t, bad, n, put, cut)
        /\ UNCHANGED deps
Spec == Init /\ [][Next]_vars
Kept == Elems(Concat(st.acch))
Queued == Elems(Map(Concat(st.accq), LAMBDA q : q.pkg))
Pending_ == UNION {IF st.reports[c] = <<>> THEN {} ELSE {st.reports[c][1].r.pkg} : c \in 1..C}

Once == Distinct(done)
(* nothing is accumulated before what it depends on *)
InOrder == \A i \in DOMAIN done : \A d \in deps[done[i]] : \E j \in 1..(i - 1) : done[j] = d
(* a package is in one place at a time *)
OnePlace == /\ Kept \cap Queued = {} /\ Kept \cap Pending_ = {} /\ Queued \cap Pending_ = {}
            /\ Distinct(Map(Concat(st.accq), LAMBDA q : q.pkg)) /\ Kept \subseteq Elems(done)
            /\ \A c, d \in Pend(st.reports) : c # d => st.reports[c][1].r.pkg # st.reports[d][1].r.pkg
(* the queue remembers exactly the dependencies not yet accumulated *)
DepsRight == \A i \in 1..E : \A k \in DOMAIN st.accq[i] : LET q == st.accq[i][k] IN Elems(q.deps) \subseteq deps[q.pkg] /\ Elems(q.deps) \cap Kept = {}
(* no report waits for availability past its time *)
NotStale == \A c \in Pend(st.reports) : st.slot < st.reports[c][1].t + U
(* the history of accumulated packages covers the last E blocks *)
KeptLength == Len(st.acch) = E
(* a core gives its report up for one of three reasons, and only takes one when free *)
Leaves == [][\A c \in 1..C : st.reports[c] # <<>> /\ st'.reports[c] # st.reports[c] =>
    LET r == st.reports[c][1] IN
    /\ st'.slot >= r.t + U \/ last'.n[c] >= SuperMajority \/ r.r.h \in last'.bad
    /\ st'.reports[c] # <<>> => st'.reports[c][1].t = st'.slot]_vars
(* what became available waits for its dependencies or is accumulated, unless the block's gas ran out *)
Arrives == [][/\ Elems(done) \subseteq Elems(done') /\ Len(done') - Len(done) <= Cardinality(Queued \cup Pending_)
  /\ \A c \in Pend(st.reports) : LET r == st.reports[c][1].r IN
       last'.n[c] >= SuperMajority /\ last'.cut = 0 => r.pkg \in Elems(done') \cup Elems(Map(Concat(st'.accq), LAMBDA q : q.pkg))]_vars
(* with gas to spare nothing whose dependencies are all accumulated is left waiting *)
Prompt == [][last'.cut = 0 => \A i \in 1..E : \A k \in DOMAIN st'.accq[i] : st'.accq[i][k].deps # <<>>]_vars
=============================================================================
