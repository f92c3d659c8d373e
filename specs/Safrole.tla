------------------------------- MODULE Safrole -------------------------------
(* Block-production lottery: validator rotation, randomness, ticket contest, slot sealers. *)
EXTENDS Base

Changed(st, t) == Epoch(t) > Epoch(st.slot)

NextEta(st, b) ==
  LET e == st.eta IN
  LET r == IF Changed(st, b.slot) THEN <<e[1], e[1], e[2], e[3]>> ELSE e IN
  [r EXCEPT ![1] = Blake(e[1] \o b.vrfout)]
(* the historical part alone, before the block's own randomness is mixed in *)
EtaHist(st, t) == IF Changed(st, t) THEN <<st.eta[1], st.eta[1], st.eta[2], st.eta[3]>> ELSE st.eta

Nullify(set, off) == [i \in DOMAIN set |-> IF In(set[i].e, off) THEN NullVal ELSE set[i]]

NextActive(st, t) == IF Changed(st, t) THEN st.safrole.pending ELSE st.active
NextPast(st, t) == IF Changed(st, t) THEN st.active ELSE st.past
NextPending(st, t, off) == IF Changed(st, t) THEN Nullify(st.staging, off) ELSE st.safrole.pending

FallbackKeys(eta2, set) ==
  [i \in 1..E |-> set[LEMod(HexSub(Blake(eta2 \o LEnc(i - 1, 4)), 0, 4), V) + 1].b]

OutsideIn(s) == [i \in 1..Len(s) |-> IF i % 2 = 1 THEN s[(i + 1) \div 2] ELSE s[Len(s) - (i \div 2) + 1]]

ContestWon(st, t) == Epoch(t) = Epoch(st.slot) + 1 /\ Phase(st.slot) >= Y /\ Len(st.safrole.acc) = E

NextSealers(st, t) ==
  IF ~Changed(st, t) THEN st.safrole.sealers
  ELSE IF ContestWon(st, t) THEN [kind |-> "t", t |-> OutsideIn(st.safrole.acc), k |-> <<>>]
  ELSE [kind |-> "k", t |-> <<>>, k |-> FallbackKeys(EtaHist(st, t)[3], NextActive(st, t))]

AccBase(st, t) == IF Changed(st, t) THEN <<>> ELSE st.safrole.acc

TicketOf(x) == [id |-> x.id, at |-> x.at]
Merged(st, b) == SortBy(AccBase(st, b.slot) \o Map(b.tickets, TicketOf), LAMBDA x : x.id)
NextAcc(st, b) == Head_(Merged(st, b), E)

TicketsGuard(st, b, ring) ==
  \/ b.tickets = <<>>
  \/ /\ Phase(b.slot) < Y
     /\ Len(b.tickets) <= K
     /\ StrictHex(Map(b.tickets, LAMBDA x : x.id))
     /\ LET old == Map(AccBase(st, b.slot), LAMBDA x : x.id)
            kept == Map(NextAcc(st, b), LAMBDA x : x.id)
        IN \A i \in DOMAIN b.tickets :
             LET x == b.tickets[i] IN
             /\ x.at < N
             /\ ~In(x.id, old)
             /\ In(x.id, kept)
             /\ x.ring = ring
             /\ x.ctx = XT \o EtaHist(st, b.slot)[3] \o LEnc(x.at, 1)

NextSafrole(st, b, off, ringx) ==
  [pending |-> NextPending(st, b.slot, off),
   ring |-> IF Changed(st, b.slot) THEN ringx ELSE st.safrole.ring,
   sealers |-> NextSealers(st, b.slot),
   acc |-> NextAcc(st, b)]

(* ------------------------------------------------ header markers and seal *)
EpochMarker(st, t, off) ==
  IF Changed(st, t)
  THEN <<[e0 |-> st.eta[1], e1 |-> st.eta[2],
          vals |-> Map(NextPending(st, t, off), LAMBDA v : [b |-> v.b, e |-> v.e])]>>
  ELSE <<>>
TicketsMarker(st, t) ==
  IF ~Changed(st, t) /\ Phase(st.slot) < Y /\ Phase(t) >= Y /\ Len(st.safrole.acc) = E
  THEN <<OutsideIn(st.safrole.acc)>> ELSE <<>>

(* h.seal / h.vrf: key used, context signed, whether message and bytes are untouched, VRF output *)
SealOK(st, b) ==
  LET h == b.hdr
      a == NextActive(st, b.slot)
      s == NextSealers(st, b.slot)
      m == Phase(b.slot) + 1
      eta3 == EtaHist(st, b.slot)[4]
  IN /\ h.author < V
     /\ LET key == a[h.author + 1].b IN
        /\ h.seal.k = key /\ h.seal.intact
        /\ IF s.kind = "t"
           THEN h.seal.out = s.t[m].id /\ h.seal.ctx = XT \o eta3 \o LEnc(s.t[m].at, 1)
           ELSE key = s.k[m] /\ h.seal.ctx = XF \o eta3
        /\ h.vrf.k = key /\ h.vrf.intact /\ h.vrf.ctx = XE \o h.seal.out

HeaderGuard(st, b, newoff, alloff) ==
  /\ b.hdr.parent /\ b.hdr.root /\ b.hdr.xt
  /\ b.slot > st.slot
  /\ SealOK(st, b)
  /\ b.hdr.em = EpochMarker(st, b.slot, alloff)
  /\ b.hdr.tm = TicketsMarker(st, b.slot)
  /\ b.hdr.off = newoff
=============================================================================
