-------------------------------- MODULE Host --------------------------------
(* What a service may ask of its node while it accumulates.
   Outside the machine numbers of up to 64 bits and service identifiers are decimal strings, octets are hexadecimal, slots are integers.
   A service account: [code, bal, g, m, octets, items, gratis, created, last, parent, st, pre, look], where st maps keys to values, pre maps
   hashes to preimages and look maps <<hash, length>> to the slots of a request.
   A context x holds everything accumulation can change:
     acc (identifier -> account), man, asg (per core), des, reg, always (identifier -> gas), queue (per core), staging,
     next (identifier for the next new service), xfers, yield ("" for none), prov (set of <<identifier, preimage>>).
   HostCall(p, m, x, y, e) answers the call the machine m has stopped at: the machine, the context and the checkpoint afterwards;
   e = [host, slot, eta, inputs]. *)
EXTENDS Pvm, Prim, Requests
CONSTANTS NumVals, NumCores, QueueLen
Expiry == 32            \* slots for which a forgotten preimage is kept
FirstPublic == 65536    \* identifiers below are handed out by the registrar only
HostGas == 10
MemoLen == 128

Without(f, k) == [z \in DOMAIN f \ {k} |-> f[z]]
With(f, k, v) == [z \in DOMAIN f \cup {k} |-> IF z = k THEN v ELSE f[z]]
DecW(w) == LEBig(SeqToHex(w))
WDec(d) == HexToSeq(LEnc(d, 8))
Length(h) == ToStr(HexLen(h))

(* ---------------------------------------------------------- memory ranges *)
PagesIn(a, n) == PageOf(a)..PageOf(Add(a, Sub(n, One)))
RangeOk(m, a, n, wr) ==
  /\ Is32(a)
  /\ \/ n = Zero
     \/ /\ Is32(n) /\ Is32(Add(a, Sub(n, One)))
        /\ \A pg \in PagesIn(a, n) : IF wr THEN Writable(m, pg) ELSE Readable(m, pg)
Octets(m, a, n) == [k \in 1..n |-> LET z == OffOf(a) + k - 1 IN Cell(m, PageOf(a) + z \div PageSize, z % PageSize)]
HexAt(m, a, n) == SeqToHex(Octets(m, a, n))
PutAt(m, a, bs) ==
  LET pg == PageOf(a) off == OffOf(a) n == Len(bs)
      new == {<<pg + (off + k - 1) \div PageSize, (off + k - 1) % PageSize>> : k \in 1..n}
  IN [c \in new \cup DOMAIN m.mem |-> IF c \in new THEN bs[(c[1] - pg) * PageSize + c[2] - off + 1] ELSE m.mem[c]]

(* --------------------------------------------------------------- accounts *)
Sat(a, b) == BMax("0", BSub(a, b))
Deposit(items, octets, gratis) == Sat(BAdd(BAdd("100", BMul("10", items)), octets), gratis)
Threshold(a) == Deposit(a.items, a.octets, a.gratis)
StItem(k, v) == BAdd("34", BAdd(Length(k), Length(v)))
LookItem(len) == BAdd("81", len)
Grow(a, items, octets) == [a EXCEPT !.items = BAdd(@, items), !.octets = BAdd(@, octets)]
Shrink(a, items, octets) == [a EXCEPT !.items = BSub(@, items), !.octets = BSub(@, octets)]
RECURSIVE SumOf(_)
SumOf(f) == IF DOMAIN f = {} THEN "0" ELSE LET k == CHOOSE k \in DOMAIN f : TRUE IN BAdd(f[k], SumOf(Without(f, k)))
Stored(a) == [items |-> BAdd(Cardinality(DOMAIN a.st), BMul("2", Cardinality(DOMAIN a.look))),
              octets |-> BAdd(SumOf([k \in DOMAIN a.st |-> StItem(k, a.st[k])]), SumOf([k \in DOMAIN a.look |-> LookItem(k[2])]))]
InfoHex(a) == HexCat(<<a.code, LEnc(a.bal, 8), LEnc(Threshold(a), 8), LEnc(a.g, 8), LEnc(a.m, 8), LEnc(a.octets, 8), LEnc(a.items, 4),
                       LEnc(a.gratis, 8), LEnc(a.created, 4), LEnc(a.last, 4), LEnc(a.parent, 4)>>)

(* identifiers of new services *)
Ring == BSub("4294967296", BAdd(FirstPublic, 256))       \* 2^32 - 2^16 - 2^8
RECURSIVE FreeId(_, _)
FreeId(acc, id) == IF id \in DOMAIN acc THEN FreeId(acc, BAdd(BMod(BAdd(BSub(id, FirstPublic), "1"), Ring), FirstPublic)) ELSE id
FirstId(acc, host, eta, slot) ==
  FreeId(acc, BAdd(BMod(LEBig(HexSub(Blake(HexCat(<<Compact(host), eta, Compact(slot)>>)), 0, 4)), Ring), FirstPublic))
NextId(acc, id) == FreeId(acc, BAdd(BMod(BAdd(BSub(id, FirstPublic), "42"), Ring), FirstPublic))

Constants(x) == HexCat(<<LEnc(10, 8), LEnc(1, 8), LEnc(100, 8), LEnc(NumCores, 2), LEnc(Expiry, 4), LEnc(12, 4), LEnc(10000000, 8), LEnc(50000000, 8),
   LEnc(1000000000, 8), LEnc(20000000, 8), LEnc(8, 2), LEnc(16, 2), LEnc(8, 2), LEnc(3, 2), LEnc(24, 4), LEnc(3, 2), LEnc(8, 2), LEnc(6, 2), LEnc(QueueLen, 2),
   LEnc(4, 2), LEnc(128, 2), LEnc(5, 2), LEnc(NumVals, 2), LEnc(64000, 4), LEnc(13791360, 4), LEnc(4000000, 4), LEnc(4, 4), LEnc(3072, 4), LEnc(1026, 4),
   LEnc(49152, 4), LEnc(128, 4), LEnc(3072, 4), LEnc(10, 4)>>)

Code(k) == Neg(W(k))
NONE == 1
WHAT == 2
WHO == 4
FULL == 5
CORE == 6
CASH == 7
LOW == 8
HUH == 9
OwnCode(host) == HexCat(<<LEnc(host, 4), HexZero(28)>>)
Ids(hex, n) == [k \in 1..n |-> LEBig(HexSub(hex, 4 * (k - 1), 4 * k))]
Gases(hex, n) == LET id(k) == LEBig(HexSub(hex, 12 * (k - 1), 12 * (k - 1) + 4)) gas(k) == LEBig(HexSub(hex, 12 * (k - 1) + 4, 12 * k))
                     last(i) == CHOOSE k \in 1..n : id(k) = i /\ \A j \in (k + 1)..n : id(j) # i
                 IN [i \in {id(k) : k \in 1..n} |-> gas(last(i))]

HostCall(p, m, x, y, e) ==
  LET c == m.arg
      gas == m.gas - HostGas
      r(k) == m.regs[k + 1]
      ans(mm, xx, yy) == [m |-> mm, x |-> xx, y |-> yy]
      stop(st, g) == ans([m EXCEPT !.gas = g, !.st = st], x, y)
      panic == stop("panic", gas)
      on(g) == [To(m, p) EXCEPT !.gas = g, !.st = "run", !.arg = NoAddr]
      ret(v, xx) == ans([on(gas) EXCEPT !.regs[8] = v], xx, y)
      no(k) == ret(Code(k), x)
      ok(xx) == ret(Zero, xx)
      readable(a, n) == RangeOk(m, a, n, FALSE)
      at(a, n) == HexAt(m, a, n)
      me == x.acc[e.host]
      mine(a) == [x EXCEPT !.acc[e.host] = a]
      has(id) == id \in DOMAIN x.acc
      \* a register naming a service, its largest value standing for the caller
      self(k) == IF r(k) = Ones THEN e.host ELSE DecW(r(k))
      named(k) == (r(k) = Ones \/ Is32(r(k))) /\ has(self(k))
      least(w, n) == IF Small(w) /\ NatW(w) < n THEN NatW(w) ELSE n
      \* hand out the part of data the caller asks for
      give(data, buf, off, len) ==
        LET n == HexLen(data) f == least(r(off), n) l == least(r(len), n - f) IN
        IF ~RangeOk(m, r(buf), W(l), TRUE) THEN panic
        ELSE ans([on(gas) EXCEPT !.regs[8] = W(n), !.mem = PutAt(m, r(buf), HexToSeq(HexSub(data, f, f + l)))], x, y)
      h32(k) == at(r(k), 32)
      hashAt(k) == readable(r(k), W(32))
      \* the request named by a hash at r(h) and a length r(l)
      req(h, l) == <<h32(h), DecW(r(l))>>
      asked(a, h, l) == Is32(r(l)) /\ req(h, l) \in DOMAIN a.look
  IN
  IF gas < 0 THEN stop("oog", gas) ELSE
  CASE c = 0 -> ret(W(gas), x)
    [] c = 1 ->
       LET k == r(10) i == IF Small(r(11)) THEN NatW(r(11)) + 1 ELSE 0 IN
       (CASE k = Zero -> give(Constants(x), 7, 8, 9)
          [] k = One -> give(e.eta, 7, 8, 9)
          [] k = W(14) -> give(HexCat(<<Compact(Len(e.inputs))>> \o e.inputs), 7, 8, 9)
          [] k = W(15) /\ i \in DOMAIN e.inputs -> give(e.inputs[i], 7, 8, 9)
          [] OTHER -> no(NONE))
    [] c = 2 ->
       IF ~hashAt(8) THEN panic
       ELSE IF ~named(7) \/ h32(8) \notin DOMAIN x.acc[self(7)].pre THEN no(NONE)
       ELSE give(x.acc[self(7)].pre[h32(8)], 9, 10, 11)
    [] c = 3 ->
       IF ~readable(r(8), r(9)) THEN panic
       ELSE LET k == at(r(8), NatW(r(9))) IN
            IF ~named(7) \/ k \notin DOMAIN x.acc[self(7)].st THEN no(NONE)
            ELSE give(x.acc[self(7)].st[k], 10, 11, 12)
    [] c = 4 ->
       IF ~readable(r(7), r(8)) \/ (r(10) # Zero /\ ~readable(r(9), r(10))) THEN panic
       ELSE LET k == at(r(7), NatW(r(8)))
                v == IF r(10) = Zero THEN "" ELSE at(r(9), NatW(r(10)))
                old == k \in DOMAIN me.st
                less == IF old THEN Shrink(me, "1", StItem(k, me.st[k])) ELSE me
                more == IF v = "" THEN [less EXCEPT !.st = Without(@, k)] ELSE [Grow(less, "1", StItem(k, v)) EXCEPT !.st = With(@, k, v)]
                changes == more.items # me.items \/ more.octets # me.octets
            IN IF changes /\ BLT(more.bal, Threshold(more)) THEN no(FULL)
               ELSE ret(IF old THEN W(HexLen(me.st[k])) ELSE Code(NONE), mine(more))
    [] c = 5 -> IF ~named(7) THEN no(NONE) ELSE give(InfoHex(x.acc[self(7)]), 8, 9, 10)
    [] c = 14 ->
       LET n == r(12) len == IF Small(n) /\ NatW(n) < 1048576 THEN W(12 * NatW(n)) ELSE Ones IN
       IF ~readable(r(8), W(4 * NumCores)) \/ ~readable(r(11), len) THEN panic
       ELSE IF ~Is32(r(7)) \/ ~Is32(r(9)) \/ ~Is32(r(10)) THEN no(WHO)
       ELSE ok([x EXCEPT !.man = DecW(r(7)), !.asg = Ids(at(r(8), 4 * NumCores), NumCores), !.des = DecW(r(9)), !.reg = DecW(r(10)),
                         !.always = Gases(at(r(11), NatW(len)), NatW(n))])
    [] c = 15 ->
       IF ~readable(r(8), W(32 * QueueLen)) THEN panic
       ELSE IF ~Small(r(7)) \/ NatW(r(7)) >= NumCores THEN no(CORE)
       ELSE LET k == NatW(r(7)) + 1 IN
            IF x.asg[k] # e.host THEN no(HUH)
            ELSE IF ~Is32(r(9)) THEN no(WHO)
            ELSE ok([x EXCEPT !.queue[k] = at(r(8), 32 * QueueLen), !.asg[k] = DecW(r(9))])
    [] c = 16 ->
       IF ~readable(r(7), W(336 * NumVals)) THEN panic
       ELSE IF x.des # e.host THEN no(HUH)
       ELSE ok([x EXCEPT !.staging = at(r(7), 336 * NumVals)])
    [] c = 17 -> ans([on(gas) EXCEPT !.regs[8] = W(gas)], x, x)
    [] c = 18 ->
       IF ~hashAt(7) \/ ~Is32(r(8)) THEN panic
       ELSE LET gratis == DecW(r(11)) len == DecW(r(8)) need == Deposit("2", LookItem(len), gratis)
                small == x.reg = e.host /\ Is32(r(12)) /\ BLT(DecW(r(12)), FirstPublic)
                id == IF small THEN DecW(r(12)) ELSE x.next
                new == [code |-> h32(7), bal |-> need, g |-> DecW(r(9)), m |-> DecW(r(10)), octets |-> LookItem(len), items |-> "2", gratis |-> gratis,
                        created |-> ToStr(e.slot), last |-> "0", parent |-> e.host, st |-> <<>>, pre |-> <<>>, look |-> (<<h32(7), len>> :> <<>>)]
                paid == With([x.acc EXCEPT ![e.host].bal = BSub(@, need)], id, new)
            IN IF gratis # "0" /\ x.man # e.host THEN no(HUH)
               ELSE IF BLT(Sat(me.bal, Threshold(me)), need) THEN no(CASH)
               ELSE IF small /\ has(id) THEN no(FULL)
               ELSE ret(WDec(id), [x EXCEPT !.acc = paid, !.next = IF small THEN @ ELSE NextId(paid, @)])
    [] c = 19 -> IF ~hashAt(7) THEN panic ELSE ok(mine([me EXCEPT !.code = h32(7), !.g = DecW(r(8)), !.m = DecW(r(9))]))
    [] c = 20 ->
       IF ~readable(r(10), W(MemoLen)) THEN panic
       ELSE IF ~Is32(r(7)) \/ ~has(DecW(r(7))) THEN no(WHO)
       ELSE LET to == DecW(r(7)) amount == DecW(r(8)) g == DecW(r(9)) left == BSub(me.bal, amount)
                dear == ~Small(r(9)) \/ gas < NatW(r(9))
            IN IF BLT(g, x.acc[to].m) THEN no(LOW)
               ELSE IF BLT(left, "0") \/ BLT(left, Threshold(me)) THEN no(CASH)
               ELSE IF dear THEN stop("oog", -1)
               ELSE ans([on(gas - NatW(r(9))) EXCEPT !.regs[8] = Zero],
                        [mine([me EXCEPT !.bal = left]) EXCEPT !.xfers = Append(@, [from |-> e.host, to |-> to, amount |-> amount, memo |-> at(r(10), MemoLen), gas |-> g])], y)
    [] c = 21 ->
       IF ~hashAt(8) THEN panic
       ELSE IF ~Is32(r(7)) \/ DecW(r(7)) = e.host \/ ~has(DecW(r(7))) THEN no(WHO)
       ELSE LET id == DecW(r(7)) a == x.acc[id] k == <<h32(8), Sat(a.octets, "81")>> IN
            IF a.code # OwnCode(e.host) THEN no(WHO)
            ELSE IF a.items # "2" \/ k \notin DOMAIN a.look THEN no(HUH)
            ELSE IF Len(a.look[k]) # 2 \/ ~Lapsed(a.look[k], e.slot, Expiry) THEN no(HUH)
            ELSE ok([x EXCEPT !.acc = Without([x.acc EXCEPT ![e.host].bal = BAdd(@, a.bal)], id)])
    [] c = 22 ->
       IF ~hashAt(7) THEN panic
       ELSE LET two(a, b) == ans([on(gas) EXCEPT !.regs[8] = a, !.regs[9] = b], x, y) IN
            IF ~asked(me, 7, 8) THEN two(Code(NONE), Zero)
            ELSE LET s == me.look[req(7, 8)] n == Len(s)
                     pair(lo, hi) == SubSeq(W(lo), 1, 4) \o SubSeq(W(hi), 1, 4)
                 IN two(pair(n, IF n > 0 THEN s[1] ELSE 0), pair(IF n > 1 THEN s[2] ELSE 0, IF n > 2 THEN s[3] ELSE 0))
    [] c = 23 ->
       IF ~hashAt(7) THEN panic
       ELSE IF ~Is32(r(8)) THEN no(FULL)
       ELSE LET k == req(7, 8) IN
            IF k \in DOMAIN me.look
            THEN IF ~MaySolicit(me.look[k]) THEN no(HUH) ELSE ok(mine([me EXCEPT !.look[k] = Solicited(@, e.slot)]))
            ELSE LET more == [Grow(me, "2", LookItem(k[2])) EXCEPT !.look = With(@, k, <<>>)] IN
                 IF BLT(more.bal, Threshold(more)) THEN no(FULL) ELSE ok(mine(more))
    [] c = 24 ->
       IF ~hashAt(7) THEN panic
       ELSE IF ~asked(me, 7, 8) THEN no(HUH)
       ELSE LET k == req(7, 8) s == me.look[k]
                gone == mine([Shrink(me, "2", LookItem(k[2])) EXCEPT !.look = Without(@, k), !.pre = Without(@, k[1])])
            IN IF ~MayForget(s, e.slot, Expiry) THEN no(HUH)
               ELSE IF Disappears(s) THEN ok(gone)
               ELSE ok(mine([me EXCEPT !.look[k] = Forgotten(s, e.slot)]))
    [] c = 25 -> IF ~hashAt(7) THEN panic ELSE ok([x EXCEPT !.yield = h32(7)])
    [] c = 26 ->
       IF ~readable(r(8), r(9)) THEN panic
       ELSE IF ~named(7) THEN no(WHO)
       ELSE LET d == at(r(8), NatW(r(9))) a == x.acc[self(7)] k == <<Blake(d), Length(d)>> IN
            IF k \notin DOMAIN a.look \/ (k \in DOMAIN a.look /\ a.look[k] # <<>>) \/ <<self(7), d>> \in x.prov THEN no(HUH)
            ELSE ok([x EXCEPT !.prov = @ \cup {<<self(7), d>>}])
    [] OTHER -> no(WHAT)
=============================================================================
