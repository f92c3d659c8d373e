---------------------------- MODULE RefineModel ----------------------------
(* One refinement making every short sequence of calls: its machines stay apart from one another and from its own memory, identifiers are the
   lowest free ones, exports are numbered in order and bounded, and what fails has no effect. *)
EXTENDS Refine
CONSTANTS MaxCalls, Offset
VARIABLES x, mem, n, last
vars == <<x, mem, n, last>>

P == [code |-> <<10, 0>>, starts |-> {0}, blocks |-> {0}, jt |-> <<>>, ok |-> TRUE]
(* store 119 at page 16, call 9, trap | add 2^16 to a register and read there, stop *)
Writer == <<0, 0, 9>> \o <<30, 3, 0, 0, 1, 119, 10, 9, 0>> \o <<65, 1>>
Reader == <<0, 0, 8>> \o <<52, 7, 0, 0, 1, 50, 0, 0>> \o <<33>>
Broken == <<0, 0, 9, 1>>
(* the caller's pages: 16 writable, 17 readable.  Layout of page 16: programs, data, then a block for gas and registers at 128, scratch at 256 *)
WAt == 0  RAt == 32  BAt == 64  DAt == 96  IAt == 128  SAt == 256
Pad(s, k) == s \o [i \in 1..(k - Len(s)) |-> 0]
HaltAt == <<0, 0, 255, 255, 0, 0, 0, 0>>
Page == Pad(Writer, 32) \o Pad(Reader, 32) \o Pad(Broken, 32) \o Pad(<<170, 187>>, 32) \o W(100) \o HaltAt \o Pad(<<>>, 96)
At(off) == W(65536 + off)
RO == W(65536 + 4096)
Far == W(400000)
R(a, b, c, d) == (7 :> a) @@ (8 :> b) @@ (9 :> c) @@ (10 :> d)
Names == {W(0), W(1), Ones}
Calls ==
  {<<8, R(At(WAt), W(Len(Writer)), pc, Zero)>> : pc \in {Zero, W(6)}} \cup {<<8, R(At(RAt), W(Len(Reader)), Zero, Zero)>>, <<8, R(At(BAt), W(4), Zero, Zero)>>, <<8, R(Far, W(4), Zero, Zero)>>}
  \cup {<<9, R(i, to, from, W(2))>> : i \in Names, to \in {At(SAt), RO}, from \in {At(0), Far}}
  \cup {<<10, R(i, from, to, W(2))>> : i \in Names, from \in {At(DAt), Far}, to \in {At(0), At(4095)}}
  \cup {<<11, R(i, W(pg), W(1), W(mode))>> : i \in Names, pg \in {15, 16}, mode \in 0..5} \cup {<<11, R(W(0), W(16), W(2), W(1))>>, <<11, R(W(0), Ones, W(2), W(1))>>}
  \cup {<<12, R(i, b, Zero, Zero)>> : i \in Names, b \in {At(IAt), RO}} \cup {<<12, R(W(0), At(SAt), Zero, Zero)>>}
  \cup {<<13, R(i, Zero, Zero, Zero)>> : i \in Names}
  \cup {<<7, R(At(a), l, Zero, Zero)>> : a \in {DAt}, l \in {Zero, W(2)}} \cup {<<7, R(Far, W(1), Zero, Zero)>>}
  \cup {<<99, R(Zero, Zero, Zero, Zero)>>}
Machine(c, r) ==
  [pc |-> 0, gas |-> 1000, st |-> "host", arg |-> c, regs |-> [k \in 1..13 |-> IF k - 1 \in DOMAIN r THEN r[k - 1] ELSE Zero],
   perms |-> <<[a |-> 16, b |-> 16, p |-> "RW"], [a |-> 17, b |-> 17, p |-> "RO"]>>, mem |-> mem, segs |-> <<[at |-> 16, bs |-> Page]>>,
   brk |-> [now |-> Zero, limit |-> Zero]]
E == [kind |-> "refine", acc |-> <<>>, core |-> 0, item |-> 0, offset |-> Offset]
RECURSIVE Go(_, _, _)
Go(p, m, k) == IF k = 0 \/ m.st # "run" THEN m ELSE Go(p, Exec(p, m), k - 1)
Done(c, r) ==
  LET a == Answer_(P, Machine(c, r), x, E, FALSE) IN
  IF ~a.run THEN a
  ELSE LET p == a.x.vm[a.inv.id].p s == Go(p, a.inv.m, 200) IN
       Returned(a.m, a.x, a.inv, s, IF s.st = "host" THEN Number(p, s) ELSE Zero) @@ [run |-> TRUE, st |-> s.st, left |-> s.gas]
Init == x = [vm |-> <<>>, exports |-> <<>>] /\ mem = <<>> /\ n = 0 /\ last = [c |-> -1, r |-> <<>>, st |-> "run", v |-> Zero, gas |-> 1000]
Next == /\ n < MaxCalls /\ last.st = "run"
        /\ \E k \in Calls : LET a == Done(k[1], k[2]) IN
             x' = a.x /\ mem' = a.m.mem /\ n' = n + 1 /\ last' = [c |-> k[1], r |-> k[2], st |-> a.m.st, v |-> a.m.regs[8], gas |-> a.m.gas]
Spec == Init /\ [][Next]_vars
View == <<x, mem, n, last.st>>

(* pages without access hold nothing, and none below the sixteenth is ever made accessible *)
Clean == \A i \in DOMAIN x.vm : \A z \in DOMAIN x.vm[i].mem : Readable([perms |-> x.vm[i].perms, segs |-> <<>>], z[1]) /\ z[1] >= FirstPage
Bounded == Offset + Len(x.exports) <= MaxExports \/ x.exports = <<>>
Dense == \A i \in DOMAIN x.vm : i < n
Id(r) == IF Small(r[7]) THEN NatW(r[7]) ELSE -1
Errs == {Code(k) : k \in 1..9}
Apart == [][\A i \in DOMAIN x.vm : (i \in DOMAIN x'.vm /\ (last'.c \notin 9..13 \/ Id(last'.r) # i)) => x'.vm[i] = x.vm[i]]_vars
LowestId == [][last'.c = 8 => (\/ x' = x \/ (DOMAIN x'.vm \ DOMAIN x.vm = {NatW(last'.v)} /\ \A j \in 0..(NatW(last'.v) - 1) : j \in DOMAIN x.vm))]_vars
OnlyExpunge == [][last'.c # 13 => DOMAIN x.vm \subseteq DOMAIN x'.vm]_vars
InOrder == [][last'.c = 7 => (x'.exports = x.exports \/ (Len(x'.exports) = Len(x.exports) + 1 /\ last'.v = W(Offset + Len(x.exports))))]_vars
Appended == [][SubSeq(x'.exports, 1, Len(x.exports)) = x.exports /\ (last'.c # 7 => x'.exports = x.exports)]_vars
Fails == [][(last'.st # "run" \/ last'.v \in Errs) => (x' = x /\ mem' = mem)]_vars
(* only a peek writes what it was asked for, and only an invocation its block *)
Where == [][\A z \in DOMAIN mem' : (z \notin DOMAIN mem \/ (z \in DOMAIN mem /\ mem'[z] # mem[z])) =>
            LET a == z[1] * 4096 + z[2] - 65536 IN
            \/ last'.c = 9 /\ a \in SAt..(SAt + 1)
            \/ last'.c = 12 /\ (a \in IAt..(IAt + 111) \/ (a \in SAt..(SAt + 111) /\ last'.r[8] = At(SAt)))]_vars
Charged == [][last'.gas = 1000 - HostGas]_vars
(* a machine that was not given a page cannot have written it *)
Reads == [][(last'.c \notin {10, 12}) => \A i \in DOMAIN x'.vm : i \in DOMAIN x.vm => DOMAIN x'.vm[i].mem \subseteq DOMAIN x.vm[i].mem]_vars
=============================================================================
