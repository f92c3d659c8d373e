------------------------------- MODULE Ledger -------------------------------
(* Authorizer pools, activity statistics and preimage provision. *)
EXTENDS History

(* ---------------------------------------------------------- authorizers *)
DropFirst(s, x) ==
  IF ~In(x, s) THEN s
  ELSE LET i == CHOOSE k \in DOMAIN s : s[k] = x /\ \A j \in 1..(k - 1) : s[j] # x
       IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
NextPool(pool, queue, b) ==
  [c \in 1..C |->
     LET g == SelectSeq(b.guar, LAMBDA x : x.rep.core = c - 1)
         left == IF g = <<>> THEN pool[c] ELSE DropFirst(pool[c], g[1].rep.auth)
     IN Tail_(Append(left, queue[c][(b.slot % Q) + 1]), O)]

(* ---------------------------------------------------------- statistics *)
ZeroV == [b |-> 0, t |-> 0, p |-> 0, d |-> 0, g |-> 0, a |-> 0]
B2N(x) == IF x THEN 1 ELSE 0
PreBytes(b) == SumSeq(Map(b.pre, LAMBDA x : x.len))
NextVStats(st, b, reporters) ==
  LET ch == Changed(st, b.slot)
      base == IF ch THEN [i \in 1..V |-> ZeroV] ELSE st.stats.cur
      act == NextActive(st, b.slot)
      au == b.hdr.author + 1
  IN [prev |-> IF ch THEN st.stats.cur ELSE st.stats.prev,
      cur |-> [i \in 1..V |->
         [b |-> base[i].b + B2N(i = au),
          t |-> base[i].t + (IF i = au THEN Len(b.tickets) ELSE 0),
          p |-> base[i].p + (IF i = au THEN Len(b.pre) ELSE 0),
          d |-> base[i].d + (IF i = au THEN PreBytes(b) ELSE 0),
          g |-> base[i].g + B2N(act[i].e \in reporters),
          a |-> base[i].a + B2N(\E k \in DOMAIN b.assur : b.assur[k].v = i - 1)]]]
CONSTANT SegBytes
Sum5(ds, F(_)) == SumSeq(Map(ds, F))
CoreStat(b, avail, c) ==
  LET g == SelectSeq(b.guar, LAMBDA x : x.rep.core = c - 1)
      a == SelectSeq(avail, LAMBDA r : r.core = c - 1)
      ds == IF g = <<>> THEN <<>> ELSE g[1].rep.digests
  IN [d |-> SumSeq(Map(a, LAMBDA r : r.len + SegBytes * 65 * ((r.nseg + 63) \div 64))),
      p |-> Assured(b, c),
      i |-> Sum5(ds, LAMBDA d : d.i), x |-> Sum5(ds, LAMBDA d : d.x), z |-> Sum5(ds, LAMBDA d : d.z),
      e |-> Sum5(ds, LAMBDA d : d.e), u |-> Sum5(ds, LAMBDA d : d.u),
      l |-> SumSeq(Map(g, LAMBDA x : x.rep.len))]
(* accumulation statistics: accumulated prefix and gas per service *)
SvcStat(b, done, used, s) ==
  LET ds == SelectSeq(Concat(Map(b.guar, LAMBDA g : g.rep.digests)), LAMBDA d : d.svc = s)
      ps == SelectSeq(b.pre, LAMBDA x : x.svc = s)
  IN [id |-> s, pc |-> Len(ps), ps |-> SumSeq(Map(ps, LAMBDA x : x.len)),
      rc |-> Len(ds), u |-> Sum5(ds, LAMBDA d : d.u), i |-> Sum5(ds, LAMBDA d : d.i), x |-> Sum5(ds, LAMBDA d : d.x),
      z |-> Sum5(ds, LAMBDA d : d.z), e |-> Sum5(ds, LAMBDA d : d.e),
      ac |-> SvcCount(done, s), ag |-> IF s \in DOMAIN used THEN used[s] ELSE 0]
StatServices(b, done, used) ==
  Elems(Map(Concat(Map(b.guar, LAMBDA g : g.rep.digests)), LAMBDA d : d.svc))
  \cup Elems(Map(b.pre, LAMBDA x : x.svc))
  \cup Services(done) \cup {s \in DOMAIN used : used[s] > 0}
NextStats(st, b, reporters, avail, done, used) ==
  LET v == NextVStats(st, b, reporters) IN
  [cur |-> v.cur, prev |-> v.prev,
   cores |-> [c \in 1..C |-> CoreStat(b, avail, c)],
   svcs |-> {SvcStat(b, done, used, s) : s \in StatServices(b, done, used)}]

(* ------------------------------------------------------------ preimages
   want: requested preimages known to the harness, [svc, h, len] -> "req" (solicited, not provided) or "have";
   b.pre: [svc, se (big-endian key), data (hex), h, len] in block order *)
PreLT(x, y) == HexLT(x.se, y.se) \/ (x.se = y.se /\ HexLT(x.data, y.data))
PreimagesGuard(want, b) ==
  /\ \A i \in 1..(Len(b.pre) - 1) : PreLT(b.pre[i], b.pre[i + 1])
  /\ \A i \in DOMAIN b.pre : \E w \in want : w.svc = b.pre[i].svc /\ w.h = b.pre[i].h /\ w.len = b.pre[i].len /\ w.at = <<>>
NextWant(want, b) ==
  {IF \E i \in DOMAIN b.pre : b.pre[i].svc = w.svc /\ b.pre[i].h = w.h /\ b.pre[i].len = w.len
   THEN [w EXCEPT !.at = <<b.slot>>] ELSE w : w \in want}
=============================================================================
