--------------------------------- MODULE Pvm ---------------------------------
(* The guest machine: programs, the instruction set, memory, gas, and the standard program layout.
   A machine is a record [pc, regs, perms, mem, gas, brk, st, arg]; Exec(p, m) is the machine one instruction later.
   Addresses are split into a page number and an offset, because TLC's integers are 32 bits wide. *)
EXTENDS PvmArith, FiniteSets, TLC

PageSize == 4096
FirstPage == 16                        \* pages below are forbidden
LastPage == 1048575
NoAddr == -1

(* ---------------------------------------------------------------- program *)
Byte(s, i) == IF i < Len(s) THEN s[i + 1] ELSE 0
Slice(s, i, n) == [k \in 1..n |-> Byte(s, i + k - 1)]

(* natural numbers: the count of leading ones of the first octet tells how many octets follow.  Result: [ok, v, n];
   v = -1 stands for anything beyond 2^24, which is longer than any program considered here *)
Lead(b) == IF b < 128 THEN 0 ELSE IF b < 192 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE IF b < 248 THEN 4 ELSE IF b < 252 THEN 5 ELSE IF b < 254 THEN 6 ELSE IF b < 255 THEN 7 ELSE 8
NatOf(s, i) ==
  IF i >= Len(s) THEN [ok |-> FALSE, v |-> 0, n |-> 0]
  ELSE LET b == s[i + 1] l == Lead(b) IN
       IF i + l >= Len(s) THEN [ok |-> FALSE, v |-> 0, n |-> 0]
       ELSE LET top == IF l = 8 THEN 0 ELSE b - (256 - 2 ^ (8 - l))
                rest == [k \in 1..8 |-> IF k <= l THEN s[i + 1 + k] ELSE IF k = l + 1 /\ l < 8 THEN top ELSE 0]
            IN [ok |-> TRUE, v |-> IF rest[4] = 0 /\ rest[5] = 0 /\ rest[6] = 0 /\ rest[7] = 0 /\ rest[8] = 0 THEN rest[1] + 256 * rest[2] + 65536 * rest[3] ELSE -1, n |-> l + 1]

Terminators == {0, 1, 40, 50, 80, 180} \cup 81..90 \cup 170..175
Defined == {0, 1, 10, 20} \cup 30..33 \cup {40} \cup 50..62 \cup 70..73 \cup 80..90 \cup 100..111 \cup 120..161 \cup 170..175 \cup {180} \cup 190..230

RECURSIVE SkipFrom(_, _, _, _)
SkipFrom(starts, n, i, k) == IF k = 24 \/ i + 1 + k >= n \/ (i + 1 + k) \in starts THEN k ELSE SkipFrom(starts, n, i, k + 1)
Skip(p, i) == SkipFrom(p.starts, Len(p.code), i, 0)

Invalid == [ok |-> FALSE]
Deblob(s) ==
  LET j == NatOf(s, 0) IN
  IF ~j.ok \/ j.n >= Len(s) THEN Invalid ELSE
  LET z == s[j.n + 1] c == NatOf(s, j.n + 1) IN
  IF ~c.ok THEN Invalid ELSE
  LET rest == Len(s) - (j.n + 1 + c.n)
      jat == j.n + 1 + c.n
  IN
  IF j.v < 0 \/ c.v < 0 THEN Invalid
  ELSE IF j.v > 0 /\ (z > 4 \/ j.v > rest) THEN Invalid
  ELSE IF j.v * z + c.v + (c.v + 7) \div 8 # rest THEN Invalid
  ELSE LET cat == jat + j.v * z
           kat == cat + c.v
           code == [k \in 1..c.v |-> s[cat + k]]
           starts == {i \in 0..(c.v - 1) : (s[kat + i \div 8 + 1] \div Pow2[(i % 8) + 1]) % 2 = 1}
           ends == {i \in starts : code[i + 1] \in Terminators \/ code[i + 1] \notin Defined}
       IN [ok |-> TRUE, code |-> code, starts |-> starts,
           blocks |-> {0} \cup {i + 1 + SkipFrom(starts, c.v, i, 0) : i \in ends},
           jt |-> [k \in 1..j.v |-> ZextN([b \in 1..z |-> s[jat + (k - 1) * z + b]])]]

(* ----------------------------------------------------------------- memory *)
PageOf(a) == a[2] \div 16 + 16 * a[3] + 4096 * a[4]
OffOf(a) == a[1] + 256 * (a[2] % 16)
RECURSIVE PermFrom(_, _, _)
PermFrom(ps, k, pg) == IF k = 0 THEN "NO" ELSE IF pg >= ps[k].a /\ pg <= ps[k].b THEN ps[k].p ELSE PermFrom(ps, k - 1, pg)
Perm(m, pg) == PermFrom(m.perms, Len(m.perms), pg)
Readable(m, pg) == Perm(m, pg) # "NO"
Writable(m, pg) == Perm(m, pg) = "RW"
(* contents the machine started with: m.segs; written since: m.mem *)
RECURSIVE Loaded(_, _, _)
Loaded(ss, k, c) ==
  IF k = 0 THEN 0
  ELSE IF c[1] >= ss[k].at /\ c[1] - ss[k].at <= 4096 /\ (c[1] - ss[k].at) * PageSize + c[2] < Len(ss[k].bs) THEN ss[k].bs[(c[1] - ss[k].at) * PageSize + c[2] + 1]
  ELSE Loaded(ss, k - 1, c)
Cell(m, pg, off) == LET k == IF off < PageSize THEN <<pg, off>> ELSE <<pg + 1, off - PageSize>> IN IF k \in DOMAIN m.mem THEN m.mem[k] ELSE Loaded(m.segs, Len(m.segs), k)
(* what happens to an access of n octets: "ok", "panic", or the page it faults on *)
Access(m, a, n, write) ==
  LET pg == PageOf(a) two == OffOf(a) + n > PageSize
      can(x) == IF write THEN Writable(m, x) ELSE Readable(m, x) IN
  IF pg < FirstPage \/ (two /\ pg = LastPage) THEN [st |-> "panic", page |-> NoAddr]
  ELSE IF ~can(pg) THEN [st |-> "fault", page |-> pg]
  ELSE IF two /\ ~can(pg + 1) THEN [st |-> "fault", page |-> pg + 1]
  ELSE [st |-> "ok", page |-> NoAddr]
ReadN(m, a, n) == [k \in 1..n |-> Cell(m, PageOf(a), OffOf(a) + k - 1)]
WriteN(m, a, bs) ==
  LET pg == PageOf(a) off == OffOf(a)
      key(k) == IF off + k - 1 < PageSize THEN <<pg, off + k - 1>> ELSE <<pg + 1, off + k - 1 - PageSize>>
      new == {key(k) : k \in DOMAIN bs}
  IN [c \in new \cup DOMAIN m.mem |-> IF c \in new THEN bs[CHOOSE k \in DOMAIN bs : key(k) = c] ELSE m.mem[c]]

(* memory as host calls use it: ranges of any length.  An area is a window on the address space: octets are numbered from
   the start of some page; first = the first page of the window that is not forbidden, end = where the address space ends *)
AreaPages(at, n) == (at \div PageSize)..((at + n - 1) \div PageSize)
AreaCan(w, at, n, write) == n = 0 \/ (at + n <= w.end /\ \A pg \in AreaPages(at, n) : IF write THEN Writable(w, pg) ELSE Readable(w, pg))
AreaAccess(w, at, n, write) ==
  IF n = 0 THEN <<"ok", NoAddr>>
  ELSE IF at < w.first * PageSize \/ at + n > w.end THEN <<"panic", NoAddr>>
  ELSE LET bad == {pg \in AreaPages(at, n) : ~IF write THEN Writable(w, pg) ELSE Readable(w, pg)} IN
       IF bad = {} THEN <<"ok", NoAddr>> ELSE <<"fault", CHOOSE pg \in bad : \A q \in bad : pg <= q>>
RECURSIVE AreaFrom(_, _, _)
AreaFrom(fs, k, x) == IF k = 0 THEN 0 ELSE IF x >= fs[k].at /\ x < fs[k].at + fs[k].n THEN fs[k].v ELSE AreaFrom(fs, k - 1, x)
AreaAt(w, x) == AreaFrom(w.fills, Len(w.fills), x)
(* where the contents of a range may change *)
AreaCuts(w, at, n) == IF n = 0 THEN {} ELSE {at} \cup {x \in UNION {{w.fills[k].at, w.fills[k].at + w.fills[k].n} : k \in DOMAIN w.fills} : x > at /\ x < at + n}
AreaNext(w, c) ==
  CASE c.op = "write" -> IF c.n > 0 /\ AreaAccess(w, c.at, c.n, TRUE)[1] = "ok" THEN [w EXCEPT !.fills = Append(@, [at |-> c.at, n |-> c.n, v |-> c.v])] ELSE w
    [] c.op = "pages" -> IF c.n = 0 THEN w ELSE [w EXCEPT !.perms = Append(@, [a |-> c.at, b |-> c.at + c.n - 1, p |-> c.p])]
    [] c.op = "addresses" -> IF c.n = 0 THEN w ELSE [w EXCEPT !.perms = Append(@, [a |-> c.at \div PageSize, b |-> (c.at + c.n - 1) \div PageSize, p |-> c.p])]
    [] c.op = "clear" -> IF c.n = 0 THEN w ELSE [w EXCEPT !.fills = Append(@, [at |-> c.at * PageSize, n |-> c.n * PageSize, v |-> 0])]
    [] OTHER -> w

(* ----------------------------------------------------------- instructions *)
Stop(m, st, arg) == [m EXCEPT !.st = st, !.arg = arg]
Panic(m) == Stop(m, "panic", NoAddr)
To(m, p) == [m EXCEPT !.pc = m.pc + 1 + Skip(p, m.pc)]
SetReg(m, p, r, v) == [To(m, p) EXCEPT !.regs[r + 1] = v]
(* jump to the word t, which must be the start of a basic block *)
Goto(m, p, t) == IF Small(t) /\ NatW(t) \in p.blocks THEN [m EXCEPT !.pc = NatW(t)] ELSE Panic(m)
Branch(m, p, t, cond) == IF cond THEN Goto(m, p, t) ELSE To(m, p)
HaltAddr == <<0, 0, 255, 255, 0, 0, 0, 0>>
DynJump(m, p, a) ==
  IF a = HaltAddr THEN Stop(m, "halt", NoAddr)
  ELSE IF ~Small(a) \/ NatW(a) = 0 \/ NatW(a) % 2 # 0 \/ NatW(a) > 2 * Len(p.jt) THEN Panic(m)
  ELSE Goto(m, p, p.jt[NatW(a) \div 2])

Load(m, p, r, a, n, signed) ==
  LET x == Access(m, a, n, FALSE) v == ReadN(m, a, n) IN
  IF x.st = "ok" THEN SetReg(m, p, r, IF signed THEN SextN(v) ELSE ZextN(v)) ELSE Stop(m, x.st, x.page)
Store(m, p, a, v, n) ==
  LET x == Access(m, a, n, TRUE) IN
  IF x.st = "ok" THEN [To(m, p) EXCEPT !.mem = WriteN(m, a, SubSeq(v, 1, n))] ELSE Stop(m, x.st, x.page)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Sizes == <<1, 2, 4, 8>>

(* heap growth: brk = [on, now, limit]; words below 2^32 *)
PageUp(a) == LET s == Add(a, W(4095)) IN PageOf(s)
Sbrk(m, p, d, size) ==
  LET now == m.brk.now
      end == Add(now, size)
      fits == Is32(size) /\ Is32(end) /\ LtU(end, m.brk.limit)
  IN IF ~fits THEN SetReg(m, p, d, Zero)
     ELSE IF size = Zero THEN SetReg(m, p, d, now)
     ELSE [SetReg(m, p, d, now) EXCEPT !.brk.now = end, !.perms = Append(@, [a |-> PageOf(now), b |-> PageUp(end) - 1, p |-> "RW"])]

Op(p, m) ==
  LET c == p.code
      i == m.pc
      o == c[i + 1]
      l == Skip(p, i)
      b1 == Byte(c, i + 1)
      lo == Min(12, b1 % 16)
      hi == Min(12, b1 \div 16)
      A == m.regs[lo + 1]
      B == m.regs[hi + 1]
      imm(at, n) == SextN(Slice(c, i + at, n))
      target(at, n) == Add(W(i), imm(at, n))
      n1 == Min(4, l)
      n2 == Min(4, Max(0, l - 1))
      I == imm(2, n2)                                   \* one immediate after a register octet
      lx == Min(4, (b1 \div 16) % 8)                    \* register and two immediates
      ly == Min(4, Max(0, l - lx - 1))
      X == imm(2, lx)
      T == target(2 + lx, ly)
      D == Min(12, Byte(c, i + 2))                      \* three registers
      set(v) == SetReg(m, p, lo, v)
      put(v) == SetReg(m, p, D, v)
      addr == Zext4(Add(B, I))
  IN
  IF o < 100 THEN
    CASE o = 1 -> To(m, p)
      [] o = 10 -> Stop(m, "host", IF Small(imm(1, n1)) THEN NatW(imm(1, n1)) ELSE -1)
      [] o = 20 -> set(Slice(c, i + 2, 8))
      [] o \in 30..33 -> LET x == Min(4, b1 % 8) y == Min(4, Max(0, l - x - 1)) IN Store(m, p, Zext4(imm(2, x)), imm(2 + x, y), Sizes[o - 29])
      [] o = 40 -> Goto(m, p, target(1, n1))
      [] o = 50 -> DynJump(m, p, Zext4(Add(A, I)))
      [] o = 51 -> set(I)
      [] o \in 52..58 -> Load(m, p, lo, Zext4(I), Sizes[(o - 52) \div 2 + 1], (o - 52) % 2 = 1)
      [] o \in 59..62 -> Store(m, p, Zext4(I), A, Sizes[o - 58])
      [] o \in 70..73 -> Store(m, p, Zext4(Add(A, X)), imm(2 + lx, ly), Sizes[o - 69])
      [] o = 80 -> LET g == Goto(m, p, T) IN [g EXCEPT !.regs[lo + 1] = X]
      [] o = 81 -> Branch(m, p, T, A = X)
      [] o = 82 -> Branch(m, p, T, A # X)
      [] o = 83 -> Branch(m, p, T, LtU(A, X))
      [] o = 84 -> Branch(m, p, T, ~LtU(X, A))
      [] o = 85 -> Branch(m, p, T, ~LtU(A, X))
      [] o = 86 -> Branch(m, p, T, LtU(X, A))
      [] o = 87 -> Branch(m, p, T, LtS(A, X))
      [] o = 88 -> Branch(m, p, T, ~LtS(X, A))
      [] o = 89 -> Branch(m, p, T, ~LtS(A, X))
      [] o = 90 -> Branch(m, p, T, LtS(X, A))
      [] OTHER -> Panic(m)                              \* trap and whatever is not an instruction
  ELSE IF o < 162 THEN
    CASE o = 100 -> set(B)
      [] o = 101 -> Sbrk(m, p, lo, B)
      [] o = 102 -> set(W(CountBits(B, 64)))
      [] o = 103 -> set(W(CountBits(B, 32)))
      [] o = 104 -> set(W(LeadingZeros(B, 64)))
      [] o = 105 -> set(W(LeadingZeros(B, 32)))
      [] o = 106 -> set(W(TrailingZeros(B, 64)))
      [] o = 107 -> set(W(TrailingZeros(B, 32)))
      [] o = 108 -> set(Sext1(B))
      [] o = 109 -> set(Sext2(B))
      [] o = 110 -> set(Zext2(B))
      [] o = 111 -> set(Reverse8(B))
      [] o \in 120..123 -> Store(m, p, addr, A, Sizes[o - 119])
      [] o \in 124..130 -> Load(m, p, lo, addr, Sizes[(o - 124) \div 2 + 1], (o - 124) % 2 = 1)
      [] o = 131 -> set(Sext4(Add(B, I)))
      [] o = 132 -> set(WAnd(B, I))
      [] o = 133 -> set(WXor(B, I))
      [] o = 134 -> set(WOr(B, I))
      [] o = 135 -> set(Sext4(Mul(B, I)))
      [] o = 136 -> set(Bool(LtU(B, I)))
      [] o = 137 -> set(Bool(LtS(B, I)))
      [] o = 138 -> set(Sext4(Shl(B, Amount32(I))))
      [] o = 139 -> set(Sext4(Shr(Zext4(B), Amount32(I))))
      [] o = 140 -> set(Sar(Sext4(B), Amount32(I)))
      [] o = 141 -> set(Sext4(Sub(I, B)))
      [] o = 142 -> set(Bool(LtU(I, B)))
      [] o = 143 -> set(Bool(LtS(I, B)))
      [] o = 144 -> set(Sext4(Shl(I, Amount32(B))))
      [] o = 145 -> set(Sext4(Shr(Zext4(I), Amount32(B))))
      [] o = 146 -> set(Sar(Sext4(I), Amount32(B)))
      [] o = 147 -> set(IF B = Zero THEN I ELSE A)
      [] o = 148 -> set(IF B # Zero THEN I ELSE A)
      [] o = 149 -> set(Add(B, I))
      [] o = 150 -> set(Mul(B, I))
      [] o = 151 -> set(Shl(B, Amount(I)))
      [] o = 152 -> set(Shr(B, Amount(I)))
      [] o = 153 -> set(Sar(B, Amount(I)))
      [] o = 154 -> set(Sub(I, B))
      [] o = 155 -> set(Shl(I, Amount(B)))
      [] o = 156 -> set(Shr(I, Amount(B)))
      [] o = 157 -> set(Sar(I, Amount(B)))
      [] o = 158 -> set(RotR(B, Amount(I)))
      [] o = 159 -> set(RotR(I, Amount(B)))
      [] o = 160 -> set(RotR32(B, Amount32(I)))
      [] o = 161 -> set(RotR32(I, Amount32(B)))
      [] OTHER -> Panic(m)
  ELSE
    CASE o = 170 -> Branch(m, p, target(2, n2), A = B)
      [] o = 171 -> Branch(m, p, target(2, n2), A # B)
      [] o = 172 -> Branch(m, p, target(2, n2), LtU(A, B))
      [] o = 173 -> Branch(m, p, target(2, n2), LtS(A, B))
      [] o = 174 -> Branch(m, p, target(2, n2), ~LtU(A, B))
      [] o = 175 -> Branch(m, p, target(2, n2), ~LtS(A, B))
      [] o = 180 -> LET x == Min(4, Byte(c, i + 2) % 8) y == Min(4, Max(0, l - x - 2)) IN
                    LET g == DynJump(m, p, Zext4(Add(B, imm(3 + x, y)))) IN [g EXCEPT !.regs[lo + 1] = imm(3, x)]
      [] o = 190 -> put(Sext4(Add(A, B)))
      [] o = 191 -> put(Sext4(Sub(A, B)))
      [] o = 192 -> put(Sext4(Mul(A, B)))
      [] o = 193 -> put(Sext4(DivU(Zext4(A), Zext4(B))))
      [] o = 194 -> put(Sext4(DivS(Sext4(A), Sext4(B))))
      [] o = 195 -> put(Sext4(RemU(Zext4(A), Zext4(B))))
      [] o = 196 -> put(Sext4(RemS(Sext4(A), Sext4(B))))
      [] o = 197 -> put(Sext4(Shl(A, Amount32(B))))
      [] o = 198 -> put(Sext4(Shr(Zext4(A), Amount32(B))))
      [] o = 199 -> put(Sar(Sext4(A), Amount32(B)))
      [] o = 200 -> put(Add(A, B))
      [] o = 201 -> put(Sub(A, B))
      [] o = 202 -> put(Mul(A, B))
      [] o = 203 -> put(DivU(A, B))
      [] o = 204 -> put(DivS(A, B))
      [] o = 205 -> put(RemU(A, B))
      [] o = 206 -> put(RemS(A, B))
      [] o = 207 -> put(Shl(A, Amount(B)))
      [] o = 208 -> put(Shr(A, Amount(B)))
      [] o = 209 -> put(Sar(A, Amount(B)))
      [] o = 210 -> put(WAnd(A, B))
      [] o = 211 -> put(WXor(A, B))
      [] o = 212 -> put(WOr(A, B))
      [] o = 213 -> put(MulSS(A, B))
      [] o = 214 -> put(MulUU(A, B))
      [] o = 215 -> put(MulSU(A, B))
      [] o = 216 -> put(Bool(LtU(A, B)))
      [] o = 217 -> put(Bool(LtS(A, B)))
      [] o = 218 -> put(IF B = Zero THEN A ELSE m.regs[D + 1])
      [] o = 219 -> put(IF B # Zero THEN A ELSE m.regs[D + 1])
      [] o = 220 -> put(RotL(A, Amount(B)))
      [] o = 221 -> put(RotL32(A, Amount32(B)))
      [] o = 222 -> put(RotR(A, Amount(B)))
      [] o = 223 -> put(RotR32(A, Amount32(B)))
      [] o = 224 -> put(WAnd(A, WNot(B)))
      [] o = 225 -> put(WOr(A, WNot(B)))
      [] o = 226 -> put(WNot(WXor(A, B)))
      [] o = 227 -> put(IF LtS(A, B) THEN B ELSE A)
      [] o = 228 -> put(IF LtU(A, B) THEN B ELSE A)
      [] o = 229 -> put(IF LtS(A, B) THEN A ELSE B)
      [] o = 230 -> put(IF LtU(A, B) THEN A ELSE B)
      [] OTHER -> Panic(m)

(* one instruction; gas is charged first *)
Exec(p, m) ==
  IF m.pc \notin p.starts THEN Panic(m)
  ELSE LET r == Op(p, m) g == m.gas - 1 IN
       IF g < 0 THEN [m EXCEPT !.gas = g, !.st = "oog"] ELSE [r EXCEPT !.gas = g]

(* ----------------------------------------------- the standard program layout *)
Num(s, i, n) == LET b(k) == IF k < n THEN Byte(s, i + k) ELSE 0 IN b(0) + 256 * b(1) + 65536 * b(2) + 16777216 * b(3)
Pages(n) == (n + 4095) \div 4096
Zones(n) == (n + 65535) \div 65536
Standard(s) ==
  IF Len(s) < 11 THEN Invalid ELSE
  LET no == Num(s, 0, 3) nw == Num(s, 3, 3) z == Num(s, 6, 2) ns == Num(s, 8, 3)
      cat == 11 + no + nw IN
  IF Len(s) < cat + 4 \/ Byte(s, cat + 3) >= 64 THEN Invalid ELSE
  LET nc == Num(s, cat, 4) IN
  IF Len(s) # cat + 4 + nc THEN Invalid
  \* five zones, the argument region, and the parts rounded to zones must fit in 2^16 zones of 2^16 octets
  ELSE IF 5 + Zones(no) + Zones(nw + z * 4096) + Zones(ns) + 256 > 65536 THEN Invalid
  ELSE LET p == Deblob(SubSeq(s, cat + 5, Len(s))) IN
       IF ~p.ok THEN Invalid
       ELSE LET wz == 2 + Zones(no)                             \* zone in which the heap starts
                ep == 16 * wz + Pages(nw) + z                   \* first page after the heap
                sp == 1048576 - 2 * 16 - 4096                   \* first page after the stack
            IN [ok |-> TRUE, p |-> p, ro |-> [k \in 1..no |-> s[11 + k]], rw |-> [k \in 1..nw |-> s[11 + no + k]],
                wpage |-> 16 * wz, wend |-> ep, sfrom |-> sp - Pages(ns), send |-> sp]
AddrOfPage(pg) == <<0, (pg % 16) * 16, (pg \div 16) % 256, pg \div 4096, 0, 0, 0, 0>>
ArgPage == 1048576 - 16 - 4096
Start(std, args, pc, gas) ==
  LET ro == Pages(Len(std.ro)) ar == Pages(Len(args))
  IN [pc |-> pc, gas |-> gas, st |-> "run", arg |-> NoAddr,
      regs |-> [r \in 1..13 |-> CASE r = 1 -> HaltAddr
                                  [] r = 2 -> AddrOfPage(std.send)
                                  [] r = 8 -> AddrOfPage(ArgPage)
                                  [] r = 9 -> W(Len(args))
                                  [] OTHER -> Zero],
      perms |-> SelectSeq(<<[a |-> 16, b |-> 16 + ro - 1, p |-> "RO"], [a |-> std.wpage, b |-> std.wend - 1, p |-> "RW"],
                  [a |-> std.sfrom, b |-> std.send - 1, p |-> "RW"], [a |-> ArgPage, b |-> ArgPage + ar - 1, p |-> "RO"]>>, LAMBDA x : x.b >= x.a),
      mem |-> <<>>,
      segs |-> SelectSeq(<<[at |-> 16, bs |-> std.ro], [at |-> std.wpage, bs |-> std.rw], [at |-> ArgPage, bs |-> args]>>, LAMBDA x : x.bs # <<>>),
      brk |-> [now |-> AddrOfPage(std.wend), limit |-> AddrOfPage(std.sfrom)]]

(* what a halted machine hands back: the octets at r7 of length r8 when all of them are readable *)
OutputReadable(m) ==
  LET a == m.regs[8] n == m.regs[9] IN
  /\ Is32(a)
  /\ n = Zero \/ (Small(n) /\ LET end == Add(a, Sub(n, One)) IN Is32(end) /\ \A pg \in PageOf(a)..PageOf(end) : Readable(m, pg))
Output(m) == LET a == m.regs[8] n == NatW(m.regs[9]) IN
  [k \in 1..n |-> LET x == OffOf(a) + k - 1 IN Cell(m, PageOf(a) + x \div 4096, x % 4096)]
=============================================================================
