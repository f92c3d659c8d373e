----------------------------- MODULE ClockTrace -----------------------------
(* Readings of the node's clock, taken while it goes on, against Clock. *)
EXTENDS Clock, Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE
Ev == Trace[l]
ClockEv ==
  /\ Ev.ev = "clock"
  /\ LET ms(r) == Moments(Ev.off, Ev.step, r.n)
         slots == {IF SlotOf(m) = 0 THEN Ev.slot ELSE Ev.next : m \in ms(Ev.at)}
         lefts == {ToString(Left(m)) : m \in ms(Ev.left)}
     IN /\ Say("slot", Ev.at.v \in slots, slots, Ev.at.v)
        /\ Say("time left in the slot", Ev.left.v \in lefts, lefts, Ev.left.v)
        /\ Say("ahead", Ev.future = Ahead(Ev.ask, Ev.off), ~Ev.future, Ev.ask)
Init == l = 1
Next == l <= Len(Trace) /\ ClockEv /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
