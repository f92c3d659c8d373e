------------------------------ MODULE AccQueue ------------------------------
(* Order in which available reports become accumulatable; the queue of reports waiting for dependencies. *)
EXTENDS Reports

DigestsOf(r) == Map(r.digests, LAMBDA d : <<d.svc, d.gas>>)
ItemOf(r) == [pkg |-> r.pkg, h |-> r.h, dg |-> DigestsOf(r), deps |-> SetToSeqH(Elems(r.pre) \cup Elems(Map(r.lookup, LAMBDA x : x[1])))]
Pkgs(items) == {items[i].pkg : i \in DOMAIN items}
Edit(items, done) ==
  Map(SelectSeq(items, LAMBDA q : q.pkg \notin done), LAMBDA q : [q EXCEPT !.deps = SelectSeq(q.deps, LAMBDA d : d \notin done)])
RECURSIVE Resolve(_)
Resolve(items) ==
  LET ready == SelectSeq(items, LAMBDA q : q.deps = <<>>)
  IN IF ready = <<>> THEN <<>>
     ELSE ready \o Resolve(Edit(SelectSeq(items, LAMBDA q : q.deps # <<>>), Pkgs(ready)))

Immediate(av) == Map(SelectSeq(av, LAMBDA r : r.pre = <<>> /\ r.lookup = <<>>), ItemOf)
Waiting(av, acch) ==
  Edit(Map(SelectSeq(av, LAMBDA r : ~(r.pre = <<>> /\ r.lookup = <<>>)), ItemOf), Elems(Concat(acch)))
(* accq in age order as seen from phase m: m, m+1, ..., E-1, 0, ..., m-1 *)
Flatten(accq, m) == Concat([i \in 1..E |-> accq[((m + i - 1) % E) + 1]])
Accumulatable(accq, acch, av, t) ==
  LET imm == Immediate(av)
  IN imm \o Resolve(Edit(Flatten(accq, Phase(t)) \o Waiting(av, acch), Pkgs(imm)))

(* n: how many of the accumulatable reports were accumulated *)
NextAccHistory(acch, star, n) == Tail(acch) \o <<SetToSeqH(Pkgs(SubSeq(star, 1, n)))>>
NextAccQueue(accq, waiting, done, t0, t) ==
  LET m == Phase(t)
      skipped == Min2(t - t0, E)
  IN [p \in 1..E |->
        LET i == (m - (p - 1) + E) % E IN     \* age of slot p
        IF i = 0 THEN Edit(waiting, done)
        ELSE IF i < skipped THEN <<>>
        ELSE Edit(accq[p], done)]

(* ------------------------------------------------ gas-limited prefix *)
CONSTANT GasTotal
ItemGas(q) == SumSeq(Map(q.dg, LAMBDA d : d[2]))
(* saturating: individual digests are bounded by GasPerCore, so sums stay within 32 bits *)
RECURSIVE Prefix(_, _)
Prefix(items, gas) ==
  IF items = <<>> THEN 0
  ELSE IF ItemGas(Head(items)) > gas THEN 0
  ELSE 1 + Prefix(Tail(items), gas - ItemGas(Head(items)))
Services(items) == UNION {Elems(Map(items[i].dg, LAMBDA d : d[1])) : i \in DOMAIN items}
SvcGas(items, s) == SumSeq(Map(SelectSeq(Concat(Map(items, LAMBDA q : q.dg)), LAMBDA d : d[1] = s), LAMBDA d : d[2]))
SvcCount(items, s) == Len(SelectSeq(Concat(Map(items, LAMBDA q : q.dg)), LAMBDA d : d[1] = s))

(* Services of the chain tests have a fixed running cost and a fixed yield. *)
Svc(svcs, s) == svcs[CHOOSE k \in DOMAIN svcs : svcs[k].id = s]
Known(svcs, s) == \E k \in DOMAIN svcs : svcs[k].id = s
Used(svcs, s, limit) == IF Known(svcs, s) THEN Min2(limit, Svc(svcs, s).cost) ELSE 0
Yields(svcs, s, limit) == Known(svcs, s) /\ Svc(svcs, s).out # "" /\ limit >= Svc(svcs, s).cost

(* [n, used: service -> gas, out: set of <<service, hash>>] after accumulating a prefix round by round *)
RECURSIVE Rounds(_, _, _, _)
Rounds(svcs, items, gas, acc) ==
  LET i == Prefix(items, gas) IN
  IF i = 0 THEN acc
  ELSE LET now == SubSeq(items, 1, i)
           ss == Services(now)
           used == [s \in ss |-> Used(svcs, s, SvcGas(now, s))]
           outs == {<<s, Svc(svcs, s).out>> : s \in {x \in ss : Yields(svcs, x, SvcGas(now, x))}}
           spent == SumSeq(Map(SetToSeqH(ss), LAMBDA s : used[s]))
           all == [s \in DOMAIN acc.used \cup ss |-> (IF s \in DOMAIN acc.used THEN acc.used[s] ELSE 0) + (IF s \in ss THEN used[s] ELSE 0)]
       IN Rounds(svcs, SubSeq(items, i + 1, Len(items)), gas - spent, [n |-> acc.n + i, used |-> all, out |-> acc.out \cup outs])
Accumulated(svcs, star) == Rounds(svcs, star, Max2(GasTotal, C * GasPerCore), [n |-> 0, used |-> [s \in {} |-> 0], out |-> {}])
=============================================================================
