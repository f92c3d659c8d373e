------------------------------- MODULE Reports -------------------------------
(* Availability assurances and report guarantees. *)
EXTENDS Disputes

(* ---------------------------------------------------------- assurances *)
BitByte(bits) == LEnc(SumSeq([i \in DOMAIN bits |-> bits[i] * (2 ^ (i - 1))]), (C + 7) \div 8)
AssurancesGuard(st, b, rep) ==
  /\ StrictInt(Map(b.assur, LAMBDA a : a.v))
  /\ \A i \in DOMAIN b.assur :
       LET a == b.assur[i] IN
       /\ a.v < V
       /\ a.anchor = b.parent
       /\ SigOK(a.sig, st.active[a.v + 1].e, XA \o Blake(b.parent \o BitByte(a.bits)))
       /\ \A c \in 1..C : a.bits[c] = 1 => rep[c] # <<>>
Assured(b, c) == Cardinality({i \in DOMAIN b.assur : b.assur[i].bits[c] = 1})
AvailableCores(b) == SelectSeq([c \in 1..C |-> c], LAMBDA c : Assured(b, c) >= SuperMajority)
Available(b, rep) == Map(AvailableCores(b), LAMBDA c : rep[c][1].r)
TimedOut(rep, c, t) == rep[c] # <<>> /\ t >= rep[c][1].t + U
AfterAssurances(b, rep) ==
  [c \in 1..C |-> IF In(c, AvailableCores(b)) \/ TimedOut(rep, c, b.slot) THEN <<>> ELSE rep[c]]

(* ---------------------------------------------- guarantor assignment *)
RECURSIVE ShuffleStep(_, _)
ShuffleStep(s, rnd) ==
  IF s = <<>> THEN <<>>
  ELSE LET l == Len(s) ix == (Head(rnd) % l) + 1 IN
       <<s[ix]>> \o ShuffleStep(SubSeq([s EXCEPT ![ix] = s[l]], 1, l - 1), Tail(rnd))
(* the i-th 32-bit random drawn from a hash, already reduced modulo m (numbers above 31 bits do not fit TLC) *)
Draw(h, i, m) == LEMod(HexSub(Blake(h \o LEnc(i \div 8, 4)), (4 * i) % 32, ((4 * i) % 32) + 4), m)
Shuffle(s, h) == ShuffleStep(s, [i \in 1..Len(s) |-> Draw(h, i - 1, Len(s) - i + 1)])
Rotate(cs, n) == [i \in DOMAIN cs |-> (cs[i] + n) % C]
Assignment(eta, t) ==
  Rotate(Shuffle([i \in 1..V |-> (C * (i - 1)) \div V], eta), Phase(t) \div R)

(* [cores, keys] for guarantees of the current and of the previous rotation.
   eta, active, past are the values after rotation; off is the posterior offender list. *)
AssignNow(t, eta, active, off) == [cores |-> Assignment(eta[3], t), keys |-> Nullify(active, off)]
AssignPrev(t, eta, active, past, off) ==
  LET p == IF t < R THEN 0 ELSE t - R IN
  IF Epoch(p) = Epoch(t)
  THEN [cores |-> Assignment(eta[3], p), keys |-> Nullify(active, off)]
  ELSE [cores |-> Assignment(eta[4], p), keys |-> Nullify(past, off)]

(* ---------------------------------------------------------- guarantees *)
CONSTANTS GasPerCore, MaxDeps, MaxOutput
SvcIx(svcs, id) == {i \in DOMAIN svcs : svcs[i].id = id}
PkgsInHistory(hist) == Concat(Map(hist.h, LAMBDA e : e.pkgs))
KnownPackages(st, hist) ==
  Elems(Map(PkgsInHistory(hist), LAMBDA p : p[1]))
  \cup Elems(Concat(st.acch))
  \cup Elems(Map(Concat(st.accq), LAMBDA q : q.pkg))
  \cup UNION {IF st.reports[c] = <<>> THEN {} ELSE {st.reports[c][1].r.pkg} : c \in 1..C}

AnchorOK(hist, r) == \E i \in DOMAIN hist.h :
   hist.h[i].hash = r.anchor /\ hist.h[i].sr = r.asr /\ hist.h[i].beefy = r.abr

(* hist: history with the parent's state root filled in; rep: reports after assurances; anc: known ancestors ([] = not checked) *)
ReportGuard(st, b, r, hist, rep, pkgs, manifests) ==
  /\ SumSeq(Map(r.digests, LAMBDA d : d.outlen)) + r.tracelen <= MaxOutput
  /\ SumSeq(Map(r.digests, LAMBDA d : d.gas)) <= GasPerCore
  /\ \A i \in DOMAIN r.digests :
       \E k \in SvcIx(st.svcs, r.digests[i].svc) :
          /\ r.digests[i].gas >= st.svcs[k].mingas
          /\ r.digests[i].code = st.svcs[k].code
  /\ r.core < C
  /\ rep[r.core + 1] = <<>>
  /\ In(r.auth, st.pool[r.core + 1])
  /\ AnchorOK(hist, r)
  /\ r.lslot + L >= b.slot
  /\ b.anc # <<>> => \E i \in DOMAIN b.anc[1] : b.anc[1][i].s = r.lslot /\ b.anc[1][i].h = r.lanchor
  /\ r.pkg \notin KnownPackages(st, hist)
  /\ Len(r.pre) + Len(r.lookup) <= MaxDeps
  /\ \A i \in DOMAIN r.lookup :
       \E m \in DOMAIN manifests : manifests[m] = r.lookup[i]
  /\ \A i \in DOMAIN r.pre : r.pre[i] \in pkgs \/ r.pre[i] \in Elems(Map(PkgsInHistory(hist), LAMBDA p : p[1]))

CredGuard(b, g, now, prev) ==
  LET same == g.t \div R = b.slot \div R
      as == IF same THEN now ELSE prev
  IN
  /\ Len(g.cred) \in {2, 3}
  /\ StrictInt(Map(g.cred, LAMBDA c : c.v))
  /\ g.t <= b.slot
  /\ g.t >= R * Max2((b.slot \div R) - 1, 0)
  /\ \A i \in DOMAIN g.cred :
       LET c == g.cred[i] IN
       /\ c.v < V
       /\ as.keys[c.v + 1].e # Z32
       /\ as.cores[c.v + 1] = g.rep.core
       /\ SigOK(c.sig, as.keys[c.v + 1].e, XG \o g.rep.h)

GuaranteesGuard(st, b, hist, rep, eta, off) ==
  \/ b.guar = <<>>
  \/ LET active == NextActive(st, b.slot)
         now == AssignNow(b.slot, eta, active, off)
         prev == AssignPrev(b.slot, eta, active, NextPast(st, b.slot), off)
         pkgs == {b.guar[i].rep.pkg : i \in DOMAIN b.guar}
         manifests == PkgsInHistory(hist) \o Map(b.guar, LAMBDA g : <<g.rep.pkg, g.rep.seg>>)
     IN /\ StrictInt(Map(b.guar, LAMBDA g : g.rep.core))
        /\ Cardinality(pkgs) = Len(b.guar)
        /\ \A i \in DOMAIN b.guar :
             /\ ReportGuard(st, b, b.guar[i].rep, hist, rep, pkgs, manifests)
             /\ CredGuard(b, b.guar[i], now, prev)

AfterGuarantees(b, rep) ==
  [c \in 1..C |->
     LET g == SelectSeq(b.guar, LAMBDA x : x.rep.core = c - 1) IN
     IF g = <<>> THEN rep[c] ELSE <<[r |-> g[1].rep, t |-> b.slot]>>]

(* keys of everyone who guaranteed something in this block *)
Reporters(st, b, eta, off) ==
  LET active == NextActive(st, b.slot)
      now == AssignNow(b.slot, eta, active, off)
      prev == AssignPrev(b.slot, eta, active, NextPast(st, b.slot), off)
  IN UNION {LET g == b.guar[i] as == IF g.t \div R = b.slot \div R THEN now ELSE prev
            IN {as.keys[g.cred[k].v + 1].e : k \in DOMAIN g.cred} : i \in DOMAIN b.guar}
=============================================================================
