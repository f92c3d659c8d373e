----------------------------- MODULE Accumulate -----------------------------
(* Accumulation of a block's available reports: rounds of services running side by side on the same prior state, and how their effects merge.
   The state b of a round: [acc, man, asg, des, reg, always, queue, staging].  A result: [host, x, yield, used]. *)
EXTENDS Host
CoreGas == 10000000
BlockGas == 20000000
MaxCode == 4000000

RECURSIVE SumOn(_)
SumOn(s) == IF s = <<>> THEN "0" ELSE BAdd(Head(s), SumOn(Tail(s)))
MapOn(s, F(_)) == [k \in DOMAIN s |-> F(s[k])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE SortIds(_)
SortIds(S) == IF S = {} THEN <<>> ELSE LET z == CHOOSE z \in S : \A w \in S : BLE(z, w) IN <<z>> \o SortIds(S \ {z})
Image(s) == {s[k] : k \in DOMAIN s}

GasLimit(b) == BMax(BlockGas, BAdd(CoreGas * NumCores, SumOf(b.always)))
ReportGas(r) == SumOn(MapOn(r.digests, LAMBDA d : d.gas))
(* how many of the reports, in order, fit the gas *)
RECURSIVE Fit(_, _)
Fit(reports, gas) ==
  IF reports = <<>> \/ BLT(gas, ReportGas(Head(reports))) THEN 0 ELSE 1 + Fit(Tail(reports), BSub(gas, ReportGas(Head(reports))))

DigestsOf(reports) == Flat(MapOn(reports, LAMBDA r : r.digests))
Operands(reports, host) == Flat(MapOn(reports, LAMBDA r : MapOn(SelectSeq(r.digests, LAMBDA d : d.svc = host), LAMBDA d :
   HexCat(<<"00", r.pkg, r.seg, r.auth, d.payload, Compact(d.gas), d.res, Compact(HexLen(r.trace)), r.trace>>))))
Transfers(xfers, host) == SelectSeq(xfers, LAMBDA t : t.to = host)
TransferHex(t) == HexCat(<<"01", LEnc(t.from, 4), LEnc(t.to, 4), LEnc(t.amount, 8), t.memo, LEnc(t.gas, 8)>>)
Inputs(reports, xfers, host) == MapOn(Transfers(xfers, host), TransferHex) \o Operands(reports, host)
GasOf(reports, xfers, always, host) ==
  BAdd(IF host \in DOMAIN always THEN always[host] ELSE "0",
       BAdd(SumOn(MapOn(SelectSeq(DigestsOf(reports), LAMBDA d : d.svc = host), LAMBDA d : d.gas)), SumOn(MapOn(Transfers(xfers, host), LAMBDA t : t.gas))))

(* who runs: services with work, with money coming, called on every block; and those holding a privilege, which do nothing unless they are among the former *)
Metered(reports, xfers, always) == {d.svc : d \in Image(DigestsOf(reports))} \cup {t.to : t \in Image(xfers)} \cup DOMAIN always
Hosts(b, reports, xfers, always) == {h \in Metered(reports, xfers, always) \cup Image(b.asg) \cup {b.man, b.des, b.reg} : h \in DOMAIN b.acc}

(* one service: the context it starts from *)
Fresh(b, host, xfers, eta, slot) ==
  LET acc == [b.acc EXCEPT ![host].bal = BAdd(@, SumOn(MapOn(Transfers(xfers, host), LAMBDA t : t.amount)))] IN
  [acc |-> acc, man |-> b.man, asg |-> b.asg, des |-> b.des, reg |-> b.reg, always |-> b.always, queue |-> b.queue, staging |-> b.staging,
   next |-> FirstId(acc, host, eta, slot), xfers |-> <<>>, yield |-> "", prov |-> {}]
(* its program: behind a length-prefixed description in the preimage its code hash names *)
ProgramOf(a) ==
  IF a.code \notin DOMAIN a.pre THEN Invalid
  ELSE LET s == HexToSeq(a.pre[a.code]) n == NatOf(s, 0) IN
       IF ~n.ok \/ n.v < 0 \/ n.n + n.v > Len(s) \/ Len(s) - n.n - n.v > MaxCode THEN Invalid
       ELSE [ok |-> TRUE, bytes |-> SubSeq(s, n.n + n.v + 1, Len(s))]
Arguments(slot, host, count) == HexToSeq(HexCat(<<Compact(slot), Compact(host), Compact(count)>>))

(* merging *)
Chosen(o, a, b) == IF a = o THEN b ELSE a       \* the manager's choice, unless it left things as they were
News(b, r) == DOMAIN r.x.acc \ DOMAIN b.acc
Gone(b, r) == DOMAIN b.acc \ DOMAIN r.x.acc
Clash(b, rs) == \E i, j \in DOMAIN rs : i < j /\ (News(b, rs[i]) \cup Gone(b, rs[i])) \cap (News(b, rs[j]) \cup Gone(b, rs[j])) # {}
Provided(acc, prov, slot) ==
  LET key(q) == <<Blake(q[2]), Length(q[2])>>
      good == {q \in prov : q[1] \in DOMAIN acc /\ key(q) \in DOMAIN acc[q[1]].look /\ acc[q[1]].look[key(q)] = <<>>}
      for(id) == {q \in good : q[1] = id}
  IN [id \in DOMAIN acc |->
       IF for(id) = {} THEN acc[id]
       ELSE LET a == acc[id] ks == {key(q) : q \in for(id)} IN
            [a EXCEPT !.look = [k \in DOMAIN a.look |-> IF k \in ks THEN <<slot>> ELSE a.look[k]],
                      !.pre = [h \in DOMAIN a.pre \cup {k[1] : k \in ks} |->
                               IF \E q \in for(id) : key(q)[1] = h THEN (CHOOSE q \in for(id) : key(q)[1] = h)[2] ELSE a.pre[h]]]]
Merge(b, rs, metered, slot) ==
  LET at(h) == CHOOSE k \in DOMAIN rs : rs[k].host = h
      ran(h) == \E k \in DOMAIN rs : rs[k].host = h
      X(h) == IF ran(h) THEN rs[at(h)].x ELSE b
      news == UNION {News(b, rs[k]) : k \in DOMAIN rs}
      gone == UNION {Gone(b, rs[k]) : k \in DOMAIN rs}
      acc == [id \in (DOMAIN b.acc \cup news) \ gone |->
               IF ran(id) THEN X(id).acc[id]
               ELSE IF id \in DOMAIN b.acc THEN b.acc[id]
               ELSE LET k == CHOOSE k \in DOMAIN rs : id \in News(b, rs[k]) IN rs[k].x.acc[id]]
      prov == UNION {rs[k].x.prov : k \in {k \in DOMAIN rs : rs[k].host \in metered}}
  IN [acc |-> Provided(acc, prov, slot),
      man |-> X(b.man).man, always |-> X(b.man).always,
      asg |-> [c \in DOMAIN b.asg |-> Chosen(b.asg[c], X(b.man).asg[c], X(b.asg[c]).asg[c])],
      des |-> Chosen(b.des, X(b.man).des, X(b.des).des),
      reg |-> Chosen(b.reg, X(b.man).reg, X(b.reg).reg),
      queue |-> [c \in DOMAIN b.queue |-> X(b.asg[c]).queue[c]],
      staging |-> X(b.des).staging]

(* ------------------------------------------------- how accounts are stored *)
MetaKey(id) == LET s == LEnc(id, 4) IN HexCat(<<"ff", HexSub(s, 0, 1), "00", HexSub(s, 1, 2), "00", HexSub(s, 2, 3), "00", HexSub(s, 3, 4), HexZero(23)>>)
ItemKey(id, h) == LET s == LEnc(id, 4) a == Blake(h) IN
  HexCat(<<HexSub(s, 0, 1), HexSub(a, 0, 1), HexSub(s, 1, 2), HexSub(a, 1, 2), HexSub(s, 2, 3), HexSub(a, 2, 3), HexSub(s, 3, 4), HexSub(a, 3, 4), HexSub(a, 4, 27)>>)
StKey(id, k) == ItemKey(id, HexCat(<<"ffffffff", k>>))
PreKey(id, h) == ItemKey(id, HexCat(<<"feffffff", h>>))
LookKey(id, k) == ItemKey(id, HexCat(<<LEnc(k[2], 4), k[1]>>))
MetaHex(a) == HexCat(<<"00", a.code, LEnc(a.bal, 8), LEnc(a.g, 8), LEnc(a.m, 8), LEnc(a.octets, 8), LEnc(a.gratis, 8), LEnc(a.items, 4),
                       LEnc(a.created, 4), LEnc(a.last, 4), LEnc(a.parent, 4)>>)
SlotsHex(s) == HexCat(<<Compact(Len(s))>> \o MapOn(s, LAMBDA t : LEnc(t, 4)))
Raw(acc) ==
  UNION {LET a == acc[id] IN
         {<<MetaKey(id), MetaHex(a)>>}
         \cup {<<StKey(id, k), a.st[k]>> : k \in DOMAIN a.st}
         \cup {<<PreKey(id, h), a.pre[h]>> : h \in DOMAIN a.pre}
         \cup {<<LookKey(id, k), SlotsHex(a.look[k])>> : k \in DOMAIN a.look} : id \in DOMAIN acc}
=============================================================================
