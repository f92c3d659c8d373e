---------------------------- MODULE SafroleModel ----------------------------
(* Block production on its own, every schedule of slots, tickets, offences and key hand-overs of a small network. *)
EXTENDS Safrole
CONSTANTS MaxSlot,   \* last slot explored
          TicketIds, \* tickets anyone may submit
          Handovers  \* how often the next validator set may be replaced
VARIABLES st, sub,   \* sub: ids submitted so far in this epoch's contest
          mark,      \* tickets marker of the epoch so far: <<>> or <<tickets>>
          off, left  \* offenders; hand-overs left
vars == <<st, sub, mark, off, left>>

Key(i) == [b |-> "b" \o ToString(i), e |-> "e" \o ToString(i), h |-> ""]
Sets == {[i \in 1..V |-> Key(((i + d) % (V + 1)) + 1)] : d \in 0..V}
Seed(i) == Blake(ToString(10 + i))
Init ==
  /\ \E a, p \in Sets : st = [slot |-> 0, eta |-> [i \in 1..4 |-> Seed(i)], active |-> a, past |-> a, staging |-> p,
              safrole |-> [pending |-> a, ring |-> "r", sealers |-> [kind |-> "k", t |-> <<>>, k |-> FallbackKeys(Seed(3), a)], acc |-> <<>>]]
  /\ sub = {} /\ mark = <<>> /\ off = <<>> /\ left = Handovers

(* the ids in order *)
RECURSIVE Ordered_(_)
Ordered_(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ HexLT(x, y) IN <<m>> \o Ordered_(S \ {m})
Att(x) == LEMod(x, N)
Ticket(x, t) == [id |-> x, at |-> Att(x), ring |-> "r", ctx |-> XT \o EtaHist(st, t)[3] \o LEnc(Att(x), 1)]
Offers == {s \in SUBSET TicketIds : Cardinality(s) <= K}
Blk(t, ids) == [slot |-> t, vrfout |-> "00", tickets |-> Map(Ordered_(ids), LAMBDA x : Ticket(x, t))]

Step(t, ids, newoff, next) ==
  LET b == Blk(t, ids) IN
  /\ TicketsGuard(st, b, "r")
  /\ off' = off \o newoff
  /\ st' = [st EXCEPT !.slot = t, !.eta = NextEta(st, b), !.active = NextActive(st, t), !.past = NextPast(st, t),
                      !.safrole = NextSafrole(st, b, off \o newoff, "r"), !.staging = next]
  /\ sub' = (IF Changed(st, t) THEN {} ELSE sub) \cup ids
  /\ LET m == TicketsMarker(st, t) IN mark' = (IF m # <<>> THEN m ELSE IF Changed(st, t) THEN <<>> ELSE mark)
  /\ left' = IF next = st.staging THEN left ELSE left - 1
Next == \E t \in (st.slot + 1)..Min2(MaxSlot, st.slot + (2 * E)) : \E ids \in Offers :
        \E o \in {<<>>} \cup {<<Key(1).e>> : x \in IF off = <<>> THEN {1} ELSE {}} :
        \E n \in IF left > 0 THEN Sets ELSE {st.staging} : Step(t, ids, o, n)
Spec == Init /\ [][Next]_vars
View == <<st.slot, st.active, st.past, st.staging, st.safrole.pending, st.safrole.sealers, st.safrole.acc, sub, mark, off, left>>

Ids(s) == Map(s, LAMBDA x : x.id)
(* the contest keeps exactly the lowest ids submitted, in order *)
AccLowest == /\ StrictHex(Ids(st.safrole.acc)) /\ Len(st.safrole.acc) <= E
             /\ Ids(st.safrole.acc) = Head_(Ordered_(sub), E)
(* every slot of the epoch has one sealer *)
SealersComplete == LET s == st.safrole.sealers IN IF s.kind = "t" THEN Len(s.t) = E /\ s.k = <<>> ELSE Len(s.k) = E /\ s.t = <<>>
(* in a fallback epoch each is a key of the active set *)
SealersActive == LET s == st.safrole.sealers IN s.kind = "k" => \A i \in DOMAIN s.k : \E v \in DOMAIN st.active : st.active[v].b = s.k[i]
(* every later slot can be sealed by exactly one key, the one the schedule names *)
Honest(t, a) ==
  LET s == NextSealers(st, t)  m == Phase(t) + 1  key == NextActive(st, t)[a + 1].b
      tick == s.kind = "t" IN
  [slot |-> t, hdr |-> [author |-> a, seal |-> [k |-> key, intact |-> TRUE, out |-> IF tick THEN s.t[m].id ELSE "o",
                                                ctx |-> IF tick THEN XT \o EtaHist(st, t)[4] \o LEnc(s.t[m].at, 1) ELSE XF \o EtaHist(st, t)[4]],
                        vrf |-> [k |-> key, intact |-> TRUE, ctx |-> XE \o (IF tick THEN s.t[m].id ELSE "o")]]]
CanAuthor == \A t \in (st.slot + 1)..(st.slot + (2 * E)) :
  LET s == NextSealers(st, t)
      who == {a \in 0..(V - 1) : SealOK(st, Honest(t, a))}
  IN IF s.kind = "t" THEN who = 0..(V - 1)    \* the winning ticket's key: ideal ticket outputs hide whose it is
     ELSE who # {} /\ \A a \in who : NextActive(st, t)[a + 1].b = s.k[Phase(t) + 1]

Rotation == [][LET c == Epoch(st'.slot) > Epoch(st.slot) IN
  /\ st'.active = (IF c THEN st.safrole.pending ELSE st.active)
  /\ st'.past = (IF c THEN st.active ELSE st.past)
  /\ \A i \in 2..4 : st'.eta[i] = (IF c THEN st.eta[i - 1] ELSE st.eta[i])
  /\ ~c => st'.safrole.pending = st.safrole.pending /\ st'.safrole.sealers = st.safrole.sealers]_vars
OffendersOut == [][Epoch(st'.slot) > Epoch(st.slot) => \A i \in DOMAIN st'.safrole.pending : ~In(st'.safrole.pending[i].e, off')]_vars
Frozen == [][Epoch(st'.slot) = Epoch(st.slot) /\ Phase(st'.slot) >= Y => st'.safrole.acc = st.safrole.acc]_vars
(* a won contest: the next epoch's sealers are the marked tickets, and only then are there ticket sealers *)
SealersWon == [][Epoch(st'.slot) > Epoch(st.slot) =>
  IF st'.safrole.sealers.kind = "t"
  THEN Epoch(st'.slot) = Epoch(st.slot) + 1 /\ Phase(st.slot) >= Y /\ Cardinality(sub) >= E /\ mark = <<st'.safrole.sealers.t>>
  ELSE ~(Epoch(st'.slot) = Epoch(st.slot) + 1 /\ Phase(st.slot) >= Y /\ Cardinality(sub) >= E)]_vars
(* the marker appears once, as soon as the contest closes won *)
MarkedOnce == [][TicketsMarker(st, st'.slot) # <<>> => mark = <<>> \/ Epoch(st'.slot) > Epoch(st.slot)]_vars
MarkerTimely == (Phase(st.slot) >= Y /\ Cardinality(sub) >= E) => mark # <<>>
=============================================================================
