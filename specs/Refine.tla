------------------------------- MODULE Refine -------------------------------
(* Work done off chain: authorizing a package on a core and refining one of its items.
   Both run a standard program found by looking up code as it was at the package's anchor slot; a refinement may moreover read its imports
   and extrinsics, look up old preimages, export segments, and run machines of its own, each with its own memory.
   Numbers, octets and accounts as in Host.  A package: [svc, code, ctx, token, config, items], a context [hashes, slot, pre], an item
   [svc, code, g, a, exports, payload, imports, xts].
   x: [vm, exports] - vm maps identifiers to machines [p, pc, perms, mem]; exports are the segments' digests in order.
   e: [kind, acc, core, item, pkg, tr, imports, offset, blobs] with item the index from 0; blobs maps <<hash, length>> to data. *)
EXTENDS Host
CONSTANTS MaxExports, KnownSummaries
SegBytes == 4104
AuthGas == 50000000
MaxRefineCode == 4000000
MaxAuthCode == 64000

(* ------------------------------------------------------------- encodings *)
U16(n) == LEnc(n, 2)
Octs(h) == HexCat(<<Compact(HexLen(h)), h>>)
Counted(list) == HexCat(<<Compact(Len(list))>> \o list)
Over(list, F(_)) == [k \in DOMAIN list |-> F(list[k])]
\* a reference to an import by package or by segment root
ImportHex(i) == HexCat(<<i[1], U16(i[2] + (IF i[3] THEN 32768 ELSE 0))>>)
ItemHex(i) == HexCat(<<LEnc(i.svc, 4), i.code, LEnc(i.g, 8), LEnc(i.a, 8), U16(i.exports), Octs(i.payload), Counted(Over(i.imports, ImportHex)),
                       Counted(Over(i.xts, LAMBDA z : HexCat(<<z[1], LEnc(z[2], 4)>>)))>>)
ContextHex(c) == HexCat(<<HexCat(c.hashes), LEnc(c.slot, 4), Counted(c.pre)>>)
PackageHex(p) == HexCat(<<LEnc(p.svc, 4), p.code, ContextHex(p.ctx), Octs(p.token), Octs(p.config), Counted(Over(p.items, ItemHex))>>)
SummaryHex(i) == HexCat(<<LEnc(i.svc, 4), i.code, LEnc(i.g, 8), LEnc(i.a, 8), U16(i.exports), U16(Len(i.imports)), U16(Len(i.xts)), LEnc(HexLen(i.payload), 4)>>)
\* the summaries one after the other; the node is known to write each as a sequence of variable-length integers instead
Ints(h) == HexCat([k \in 1..HexLen(h) |-> Compact(HexByte(h, k - 1))])
Summaries(p, odd) == Counted(Over(p.items, LAMBDA i : IF odd THEN HexCat(<<Compact(HexLen(SummaryHex(i))), Ints(SummaryHex(i))>>) ELSE SummaryHex(i)))

(* --------------------------------------------------- what to run, if at all *)
\* a preimage a service had at a slot, or "none"
Past(acc, id, h, t) ==
  IF id \notin DOMAIN acc \/ (id \in DOMAIN acc /\ h \notin DOMAIN acc[id].pre) THEN "none"
  ELSE LET d == acc[id].pre[h] k == <<h, Length(d)>> IN
       IF k \in DOMAIN acc[id].look /\ Covered(acc[id].look[k], t) THEN d ELSE "none"
Code_(d, most) ==
  IF d = "none" THEN [st |-> "bad"]
  ELSE LET n == NatOf(HexToSeq(HexSub(d, 0, IF HexLen(d) < 9 THEN HexLen(d) ELSE 9)), 0) IN
       IF ~n.ok \/ n.v < 0 \/ n.n + n.v > HexLen(d) THEN [st |-> "bad"]
       ELSE IF HexLen(d) - n.n - n.v > most THEN [st |-> "big"]
       ELSE [st |-> "ok", bytes |-> HexToSeq(HexSub(d, n.n + n.v, HexLen(d)))]
Item_(e) == e.pkg.items[e.item + 1]
Plan(e) ==
  IF e.kind = "auth"
  THEN [code |-> Code_(Past(e.acc, e.pkg.svc, e.pkg.code, e.pkg.ctx.slot), MaxAuthCode), args |-> U16(e.core), gas |-> ToStr(AuthGas), self |-> e.pkg.svc]
  ELSE IF e.item >= Len(e.pkg.items) THEN [code |-> [st |-> "bad"]]
  ELSE LET i == Item_(e) IN
       [code |-> Code_(Past(e.acc, i.svc, i.code, e.pkg.ctx.slot), MaxRefineCode),
        args |-> HexCat(<<Compact(e.core), Compact(e.item), Compact(i.svc), Octs(i.payload), Blake(PackageHex(e.pkg))>>), gas |-> i.g, self |-> i.svc]

(* ------------------------------------------------------------ host calls *)
OOB == 3
Asks(e) == IF e.kind = "auth" THEN {0, 1} ELSE {0, 1} \cup 6..13
\* the data behind a selector; "none" if there is no such thing
Datum(e, k, i, j, odd) ==
  LET p == e.pkg n == Len(p.items) refining == e.kind = "refine"
      at(list, z) == IF z < Len(list) THEN list[z + 1] ELSE "none"
      blob(it, z) == IF z < Len(it.xts) /\ <<it.xts[z + 1][1], it.xts[z + 1][2]>> \in DOMAIN e.blobs THEN e.blobs[<<it.xts[z + 1][1], it.xts[z + 1][2]>>] ELSE "none"
  IN CASE k = 0 -> Constants(e)
       [] k = 1 /\ refining -> HexZero(32)
       [] k = 2 /\ refining -> e.tr
       [] k = 3 /\ refining -> IF i < n THEN blob(p.items[i + 1], j) ELSE "none"
       [] k = 4 /\ refining -> blob(Item_(e), i)
       [] k = 5 /\ refining -> IF i < Len(e.imports) THEN at(e.imports[i + 1], j) ELSE "none"
       [] k = 6 /\ refining -> at(e.imports[e.item + 1], i)
       [] k = 7 -> PackageHex(p)
       [] k = 8 -> p.config
       [] k = 9 -> p.token
       [] k = 10 -> ContextHex(p.ctx)
       [] k = 11 -> Summaries(p, odd)
       [] k = 12 /\ i < n -> SummaryHex(p.items[i + 1])
       [] k = 13 /\ i < n -> p.items[i + 1].payload
       [] OTHER -> "none"

Lowest(ids) == CHOOSE k \in 0..Cardinality(ids) : k \notin ids /\ \A j \in 0..(k - 1) : j \in ids
Blank_(q, pc) == [p |-> q, pc |-> pc, perms |-> <<>>, mem |-> <<>>]
\* a machine of the service's own as a machine of the node's
AsMachine(v, regs, gas) == [pc |-> IF Small(v.pc) THEN NatW(v.pc) ELSE -1, regs |-> regs, gas |-> gas, st |-> "run", arg |-> NoAddr, perms |-> v.perms, mem |-> v.mem,
                            segs |-> <<>>, brk |-> [now |-> Zero, limit |-> Zero]]
AnyInt(w, most) == IF Small(w) /\ NatW(w) < most THEN NatW(w) ELSE most
Endless == 1000000000                      \* gas no program here uses up
SmallGas(g) == Small(g) /\ NatW(g) < Endless

(* the answer to call c = m.arg: [m, x, run]; if run, inv is the machine to run before the caller goes on *)
Answer_(p, m, x, e, odd) ==
  LET c == m.arg
      gas == m.gas - HostGas
      r(k) == m.regs[k + 1]
      ans(mm, xx) == [m |-> mm, x |-> xx, run |-> FALSE]
      stop(st) == ans([m EXCEPT !.gas = gas, !.st = st], x)
      panic == stop("panic")
      on == [To(m, p) EXCEPT !.gas = gas, !.st = "run", !.arg = NoAddr]
      ret(v, xx) == ans([on EXCEPT !.regs[8] = v], xx)
      no(k) == ret(Code(k), x)
      ok(xx) == ret(Zero, xx)
      readable(a, n) == RangeOk(m, a, n, FALSE)
      writable(a, n) == RangeOk(m, a, n, TRUE)
      least(w, n) == IF Small(w) /\ NatW(w) < n THEN NatW(w) ELSE n
      give(data, buf, off, len) ==
        LET n == HexLen(data) f == least(r(off), n) l == least(r(len), n - f) IN
        IF ~writable(r(buf), W(l)) THEN panic
        ELSE ans([on EXCEPT !.regs[8] = W(n), !.mem = PutAt(m, r(buf), HexToSeq(HexSub(data, f, f + l)))], x)
      known(k) == Small(r(k)) /\ NatW(r(k)) \in DOMAIN x.vm
      id == NatW(r(7))
      inner == [perms |-> x.vm[id].perms, mem |-> x.vm[id].mem, segs |-> <<>>]
  IN
  IF gas < 0 THEN stop("oog") ELSE
  IF c \notin Asks(e) THEN no(WHAT) ELSE
  CASE c = 0 -> ret(W(gas), x)
    [] c = 1 ->
       LET idx(k) == AnyInt(r(k), 1000000) d == IF Small(r(10)) THEN Datum(e, NatW(r(10)), idx(11), idx(12), odd) ELSE "none" IN
       IF d = "none" THEN no(NONE) ELSE give(d, 7, 8, 9)
    [] c = 6 ->
       IF ~readable(r(8), W(32)) THEN panic
       ELSE LET host == IF r(7) = Ones THEN Plan(e).self ELSE IF Is32(r(7)) THEN DecW(r(7)) ELSE "nobody"
                d == Past(e.acc, host, HexAt(m, r(8), 32), e.pkg.ctx.slot)
            IN IF d = "none" THEN no(NONE) ELSE give(d, 9, 10, 11)
    [] c = 7 ->
       LET n == AnyInt(r(8), SegBytes) k == e.offset + Len(x.exports) IN
       IF ~readable(r(7), W(n)) THEN panic
       ELSE IF k >= MaxExports THEN no(FULL)
       ELSE ret(W(k), [x EXCEPT !.exports = Append(@, Blake(HexCat(<<HexAt(m, r(7), n), HexZero(SegBytes - n)>>)))])
    [] c = 8 ->
       IF ~readable(r(7), r(8)) THEN panic
       ELSE LET q == Deblob(Octets(m, r(7), NatW(r(8)))) n == Lowest(DOMAIN x.vm) IN
            IF ~q.ok THEN no(HUH) ELSE ret(W(n), [x EXCEPT !.vm = With(@, n, Blank_(q, r(9)))])
    [] c = 9 ->
       IF ~writable(r(8), r(10)) THEN panic
       ELSE IF ~known(7) THEN no(WHO)
       ELSE IF ~RangeOk(inner, r(9), r(10), FALSE) THEN no(OOB)
       ELSE ans([on EXCEPT !.regs[8] = Zero, !.mem = PutAt(m, r(8), Octets(inner, r(9), NatW(r(10))))], x)
    [] c = 10 ->
       IF ~readable(r(8), r(10)) THEN panic
       ELSE IF ~known(7) THEN no(WHO)
       ELSE IF ~RangeOk(inner, r(9), r(10), TRUE) THEN no(OOB)
       ELSE ok([x EXCEPT !.vm[id].mem = PutAt(inner, r(9), Octets(m, r(8), NatW(r(10))))])
    [] c = 11 ->
       IF ~known(7) THEN no(WHO)
       ELSE LET a == AnyInt(r(8), 1048576) n == AnyInt(r(9), 1048576) mode == AnyInt(r(10), 5) b == a + n - 1
                cleared == [z \in {z \in DOMAIN inner.mem : z[1] \notin a..b} |-> inner.mem[z]]
                perm == CASE mode = 0 -> "NO" [] mode \in {1, 3} -> "RO" [] OTHER -> "RW"
            IN IF mode > 4 \/ a < FirstPage \/ a + n >= 1048576 THEN no(HUH)
               ELSE IF mode > 2 /\ \E pg \in a..b : ~Readable(inner, pg) THEN no(HUH)
               ELSE ok([x EXCEPT !.vm[id].perms = IF n = 0 THEN @ ELSE Append(@, [a |-> a, b |-> b, p |-> perm]), !.vm[id].mem = IF mode < 3 THEN cleared ELSE @])
    [] c = 12 ->
       IF ~writable(r(8), W(112)) THEN panic
       ELSE IF ~known(7) THEN no(WHO)
       ELSE LET g == Octets(m, r(8), 8)
                regs == [k \in 1..13 |-> Octets(m, Add(r(8), W(8 * k)), 8)]
            IN [m |-> on, x |-> x, run |-> TRUE, inv |-> [id |-> id, at |-> r(8), g |-> g, m |-> AsMachine(x.vm[id], regs, IF SmallGas(g) THEN NatW(g) ELSE Endless)]]
    [] c = 13 -> IF ~known(7) THEN no(WHO) ELSE ret(x.vm[id].pc, [x EXCEPT !.vm = Without(@, id)])

(* a machine of the service's own has stopped: what its owner and its next run find *)
Exit(st) == CASE st = "halt" -> 0 [] st = "panic" -> 1 [] st = "fault" -> 2 [] st = "host" -> 3 [] st = "oog" -> 4
Returned(m, x, inv, n, call) ==
  LET v == x.vm[inv.id]
      used == (IF SmallGas(inv.g) THEN NatW(inv.g) ELSE Endless) - n.gas
      left == Sub(inv.g, W(used))
      pc == CASE n.st \in {"halt", "panic"} -> Zero [] n.st = "host" -> W(To(n, v.p).pc) [] OTHER -> W(n.pc)
      flat == [k \in 1..104 |-> n.regs[(k - 1) \div 8 + 1][((k - 1) % 8) + 1]]
      second == CASE n.st = "fault" -> AddrOfPage(n.arg) [] n.st = "host" -> call [] OTHER -> m.regs[9]
  IN [m |-> [m EXCEPT !.regs[8] = W(Exit(n.st)), !.regs[9] = second, !.mem = PutAt(m, inv.at, left \o flat)],
      x |-> [x EXCEPT !.vm[inv.id] = [p |-> v.p, pc |-> pc, perms |-> n.perms, mem |-> n.mem]]]
\* the number behind the host call instruction a machine is at
Number(p, m) == SextN(Slice(p.code, m.pc + 1, Min(4, Skip(p, m.pc))))
=============================================================================
