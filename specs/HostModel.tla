----------------------------- MODULE HostModel -----------------------------
(* One service making every short sequence of calls, over several rounds: value is neither made nor lost, counters are exact, nobody else's
   data and no privilege not held are touched, and what fails has no effect. *)
EXTENDS Host
CONSTANTS MaxCalls, Slots_, Balance
VARIABLES x, y, slot, n, last
vars == <<x, y, slot, n, last>>

Me == "5"
P == [code |-> <<10, 0>>, starts |-> {0}, blocks |-> {0}, jt |-> <<>>, ok |-> TRUE]
(* one page at 64 KiB: two hashes, keys and values, a memo, privileges *)
H1 == HexCat([i \in 1..32 |-> "11"])
H2 == HexCat([i \in 1..32 |-> "22"])
Page == HexToSeq(HexCat(<<H1, H2, OwnCode(Me), "aabbccdd", HexZero(28), HexZero(MemoLen + 64)>>))
At(off) == W(65536 + off)
Machine(c, r) ==
  [pc |-> 0, gas |-> 100000, st |-> "host", arg |-> c, regs |-> [k \in 1..13 |-> IF k - 1 \in DOMAIN r THEN r[k - 1] ELSE Zero],
   perms |-> <<[a |-> 16, b |-> 16, p |-> "RW"]>>, mem |-> <<>>, segs |-> <<[at |-> 16, bs |-> Page]>>, brk |-> 0]
R(a, b, c, d, f, g) == (7 :> a) @@ (8 :> b) @@ (9 :> c) @@ (10 :> d) @@ (11 :> f) @@ (12 :> g)
S(id) == HexToSeq(LEnc(id, 8))
Far == W(200000)
Callees == {S("5"), S("6"), S("70000"), S("9"), Ones}
Calls ==
  {<<4, R(At(96 + k), W(1), At(96), W(v), Zero, Zero)>> : k \in {0, 1}, v \in {0, 1, 40}} \cup {<<4, R(Far, W(1), At(96), W(1), Zero, Zero)>>}
  \cup {<<14, R(S("5"), At(160), S("5"), S("5"), At(160), W(0))>>}
  \cup {<<15, R(W(k), At(0), S("6"), Zero, Zero, Zero)>> : k \in 0..1}
  \cup {<<16, R(At(0), Zero, Zero, Zero, Zero, Zero)>>, <<17, R(Zero, Zero, Zero, Zero, Zero, Zero)>>}
  \cup {<<18, R(At(0), W(l), Zero, Zero, W(g), W(s))>> : l \in {0, 20}, g \in {0, 1000}, s \in {7, 6}}
  \cup {<<19, R(At(32), W(1), W(2), Zero, Zero, Zero)>>}
  \cup {<<20, R(to, W(a), W(g), At(128), Zero, Zero)>> : to \in Callees, a \in {0, 60, 600}, g \in {0, 10}}
  \cup {<<21, R(to, At(h), Zero, Zero, Zero, Zero)>> : to \in Callees, h \in {0, 32}}
  \cup {<<c, R(At(h), W(l), Zero, Zero, Zero, Zero)>> : c \in {22, 23, 24}, h \in {0, 32}, l \in {0, 20}}
  \cup {<<25, R(At(0), Zero, Zero, Zero, Zero, Zero)>>}
  \cup {<<26, R(to, At(96), W(l), Zero, Zero, Zero)>> : to \in Callees, l \in {0, 1}}
  \cup {<<99, R(Zero, Zero, Zero, Zero, Zero, Zero)>>}

Blank(bal, code, parent) == [code |-> code, bal |-> bal, g |-> "0", m |-> "5", octets |-> "0", items |-> "0", gratis |-> "0", created |-> "1", last |-> "0",
                     parent |-> parent, st |-> <<>>, pre |-> <<>>, look |-> <<>>]
Asked(a, h, l, s) == [a EXCEPT !.look = With(@, <<h, l>>, s), !.items = BAdd(@, "2"), !.octets = BAdd(@, LookItem(l))]
Acc0 == ("5" :> Blank(Balance, H1, "0")) @@ ("6" :> Asked(Blank("300", H2, "0"), Blake("aa"), "1", <<>>))
        @@ ("70000" :> Asked(Blank("201", OwnCode("5"), "5"), H1, "0", <<10, 20>>))
X0 == [acc |-> Acc0, man |-> "6", asg |-> <<"5", "6">>, des |-> "6", reg |-> "5", always |-> <<>>, queue |-> <<"", "">>, staging |-> "", next |-> "70001",
       xfers |-> <<>>, yield |-> "", prov |-> {}]
Init == x = X0 /\ y = X0 /\ slot \in Slots_ /\ n = 0 /\ last = [c |-> -1, v |-> Zero, st |-> "run"]
E == [host |-> Me, slot |-> slot, eta |-> HexZero(32), inputs |-> <<>>]
Call == /\ n < MaxCalls /\ last.st = "run"
        /\ \E k \in Calls : LET a == HostCall(P, Machine(k[1], k[2]), x, y, E) IN
             x' = a.x /\ y' = a.y /\ n' = n + 1 /\ last' = [c |-> k[1], v |-> a.m.regs[8], st |-> a.m.st] /\ UNCHANGED slot
(* a new round, later: transfers are delivered *)
Later == /\ \E t \in Slots_ : t > slot /\ slot' = t
         /\ n < MaxCalls
         /\ LET paid == [i \in DOMAIN x.acc |-> [x.acc[i] EXCEPT !.bal = BAdd(@, SumOf([k \in {j \in DOMAIN x.xfers : x.xfers[j].to = i} |-> x.xfers[k].amount]))]]
            IN x' = [x EXCEPT !.acc = paid, !.xfers = <<>>]
         /\ y' = x' /\ n' = n /\ last' = [last EXCEPT !.c = -1, !.st = "run"]
Next == Call \/ Later
Spec == Init /\ [][Next]_vars
View == <<x, slot, n, last.st>>

Worth(z) == BAdd(SumOf([i \in DOMAIN z.acc |-> z.acc[i].bal]), SumOf([k \in DOMAIN z.xfers |-> z.xfers[k].amount]))
Kept(z) == Worth(z) = Worth(X0)
(* transfers to a service removed since lose what they carry; no other way *)
Value == \/ Kept(x)
         \/ \E i \in {"6", "70000"} : i \notin DOMAIN x.acc /\ ~BLT(Worth(X0), Worth(x))
NeverMore == ~BLT(Worth(X0), Worth(x))
Counted == \A i \in DOMAIN x.acc : LET a == x.acc[i] IN Stored(a) = [items |-> a.items, octets |-> a.octets]
Covered_ == ~BLT(x.acc[Me].bal, Threshold(x.acc[Me]))
FreshNext == x.next \notin DOMAIN x.acc
KnownOnly == \A k \in DOMAIN x.xfers : x.xfers[k].from = Me
Whole == \A i \in DOMAIN x.acc : \A k \in DOMAIN x.acc[i].look : Len(x.acc[i].look[k]) <= 3

Errors == {Code(k) : k \in 1..9}
Fails == [][(last'.c >= 0 /\ (last'.st # "run" \/ (last'.v \in Errors /\ last'.c # 4))) => x' = x]_vars
OthersKept == [][last'.c >= 0 => \A i \in DOMAIN x.acc \ {Me} : i \in DOMAIN x'.acc => x'.acc[i] = x.acc[i]]_vars
OnlyEjectRemoves == [][(last'.c # 21 \/ last'.v # Zero) => DOMAIN x.acc \subseteq DOMAIN x'.acc]_vars
EjectOwned == [][\A i \in DOMAIN x.acc \ DOMAIN x'.acc : x.acc[i].code = OwnCode(Me) /\ x.acc[i].items = "2"]_vars
QueueHeld == [][\A k \in 1..NumCores : x'.queue[k] # x.queue[k] => x.asg[k] = Me]_vars
StagingHeld == [][x'.staging # x.staging => x.des = Me]_vars
GratisHeld == [][\A i \in DOMAIN x'.acc \ DOMAIN x.acc : x'.acc[i].gratis = "0" \/ x.man = Me]_vars
SmallIds == [][\A i \in DOMAIN x'.acc \ DOMAIN x.acc : BLT(i, FirstPublic) => x.reg = Me]_vars
Checkpoints == [][last'.c >= 0 => (y' = y \/ (last'.c = 17 /\ y' = x))]_vars
=============================================================================
