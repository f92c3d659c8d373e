----------------------------- MODULE LedgerModel -----------------------------
(* Authorizer pools, activity figures, recent history and preimage requests over every short sequence of blocks. *)
EXTENDS Ledger
CONSTANTS MaxSlot, Auths
VARIABLES st, log    \* log: the blocks so far, [slot, author, tickets, g: cores guaranteed, a: assurers, pre]
vars == <<st, log>>
Key(i) == [b |-> "b" \o ToString(i), e |-> "e" \o ToString(i), h |-> ""]
Act == [i \in 1..V |-> Key(i)]
Zero_ == [i \in 1..V |-> ZeroV]
Init == \E q \in [1..C -> [1..Q -> Auths]] :
  /\ log = <<>>
  /\ st = [slot |-> 0, active |-> Act, safrole |-> [pending |-> Act], stats |-> [cur |-> Zero_, prev |-> Zero_], pool |-> [c \in 1..C |-> <<>>], queue |-> q,
           history |-> [h |-> <<>>, belt |-> <<>>], want |-> {[svc |-> 1, h |-> "h", len |-> 5, at |-> <<>>], [svc |-> 2, h |-> "h", len |-> 5, at |-> <<>>]}]
Rep(c, a) == [rep |-> [core |-> c - 1, auth |-> a, pkg |-> "p", seg |-> "s", digests |-> <<>>, len |-> 7]]
Pre(s) == [svc |-> s, se |-> LEnc(s, 4), data |-> "00", h |-> "h", len |-> 5]
Step(t, au, tk, used, assurers, ps) ==
  LET cs == DOMAIN used
      gs == Concat([c \in 1..C |-> IF c \in cs THEN <<Rep(c, used[c])>> ELSE <<>>])
      b == [slot |-> t, hdr |-> [author |-> au - 1, hash |-> LEnc(t, 4)], tickets |-> [i \in 1..tk |-> "t"], guar |-> gs,
            assur |-> Concat([v \in 1..V |-> IF v \in assurers THEN <<[v |-> v - 1, bits |-> [c \in 1..C |-> 0]]>> ELSE <<>>]), pre |-> Concat([s \in 1..2 |-> IF s \in ps THEN <<Pre(s)>> ELSE <<>>])]
      reps == {Act[v].e : v \in {w \in 1..V : gs # <<>> /\ w <= 2}}
  IN /\ \A c \in cs : In(used[c], st.pool[c])
     /\ PreimagesGuard(st.want, b)
     /\ st' = [st EXCEPT !.slot = t, !.stats = NextVStats(st, b, reps), !.pool = NextPool(@, st.queue, b), !.want = NextWant(@, b),
                         !.history = NextHistory(@, b, LEnc(st.slot, 4), <<>>)]
     /\ log' = Append(log, [slot |-> t, author |-> au, tickets |-> tk, g |-> IF gs = <<>> THEN {} ELSE 1..2, a |-> assurers, pre |-> Len(b.pre), used |-> used])
Next == \E t \in (st.slot + 1)..Min2(MaxSlot, st.slot + E + 1) : \E au \in {1, V} : \E tk \in {0, 1} : \E cs \in SUBSET (1..C) : \E used \in [cs -> Auths] :
        \E ass \in {{}, {1}, 1..V} : \E ps \in SUBSET {1, 2} : Step(t, au, tk, used, ass, ps)
Spec == Init /\ [][Next]_vars
Of(ep) == SelectSeq(log, LAMBDA x : Epoch(x.slot) = ep)
Sum(s, F(_)) == SumSeq(Map(s, F))
Figures(ls) == [i \in 1..V |-> LET mine == SelectSeq(ls, LAMBDA x : x.author = i) IN
  [b |-> Len(mine), t |-> Sum(mine, LAMBDA x : x.tickets), p |-> Sum(mine, LAMBDA x : x.pre), d |-> 5 * Sum(mine, LAMBDA x : x.pre),
   g |-> Len(SelectSeq(ls, LAMBDA x : i \in x.g)), a |-> Len(SelectSeq(ls, LAMBDA x : i \in x.a))]]
(* the current figures are those of this epoch's blocks; the previous ones those of the last epoch that had a block before it *)
LastEpoch == IF log = <<>> THEN 0 ELSE Epoch(Last_(log).slot)
Before == SelectSeq(log, LAMBDA x : Epoch(x.slot) < LastEpoch)
FiguresExact == /\ st.stats.cur = Figures(Of(LastEpoch))
                /\ st.stats.prev = IF Before = <<>> THEN Zero_ ELSE Figures(Of(Epoch(Last_(Before).slot)))
(* a pool is bounded and ends with the queue entry of the slot *)
PoolsBounded == \A c \in 1..C : Len(st.pool[c]) <= O /\ (log # <<>> => Last_(st.pool[c]) = st.queue[c][(st.slot % Q) + 1])
(* an authorizer leaves the pool by being used once or by age, never otherwise: its multiplicity changes by at most the used, added, expired ones *)
Mult(s, a) == Cardinality({i \in DOMAIN s : s[i] = a})
PoolSteps == [][\A c \in 1..C : \A a \in Auths :
   LET x == Last_(log')  used == IF c \in DOMAIN x.used /\ x.used[c] = a THEN 1 ELSE 0
       new == IF st.queue[c][(x.slot % Q) + 1] = a THEN 1 ELSE 0
       full == Len(st.pool[c]) - (IF c \in DOMAIN x.used THEN 1 ELSE 0) + 1 > O
   IN Mult(st'.pool[c], a) \in (IF full THEN {Mult(st.pool[c], a) - used + new, Mult(st.pool[c], a) - used + new - 1} ELSE {Mult(st.pool[c], a) - used + new})]_vars
(* recent history: the last H blocks in order, each but the newest with the root of the state it led to *)
HistoryExact == LET h == st.history.h IN
  /\ Len(h) = Min2(H, Len(log)) /\ Map(h, LAMBDA e : e.hash) = Map(Tail_(log, H), LAMBDA x : LEnc(x.slot, 4))
  /\ \A i \in DOMAIN h : h[i].sr = IF i = Len(h) THEN Z32 ELSE h[i].hash
(* the belt has one leaf per block: its peaks are the binary digits of the number of blocks *)
BeltCounts == LET p == st.history.belt IN SumSeq([i \in DOMAIN p |-> IF p[i] = <<>> THEN 0 ELSE 2 ^ (i - 1)]) = Len(log) /\ (p # <<>> => Last_(p) # <<>>)
(* a request is met at most once and stays met *)
MetOnce == [][\A w \in st.want : w.at # <<>> => w \in st'.want]_vars
PreimagesCounted == Sum(log, LAMBDA x : x.pre) = Cardinality({w \in st.want : w.at # <<>>})
=============================================================================
