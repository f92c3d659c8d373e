------------------------------ MODULE GossipTrace ------------------------------
(* What two real nodes and a peer played by the driver saw of each other, replayed against Gossip. *)
EXTENDS Gossip, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES whole, slot, holds, off, l
vars == <<whole, slot, holds, off, l>>
Ev == Trace[l]
Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE
Eq(name, exp, got) == Say(name, exp = got, exp, got)
Fn(ps, f(_)) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> f(ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k])]
Second(p) == p[2]
Third(p) == p[3]
Step ==
  \/ /\ Ev.ev = "new" /\ off' = {}
     /\ whole' = Fn(Ev.blocks, Second) /\ slot' = Fn(Ev.blocks, Third)
     /\ holds' = [n \in {"A", "B"} |-> Fn(IF n = "A" THEN Ev.have[1] ELSE Ev.have[2], Second)]
  \/ /\ Ev.ev = "ask"                                 \* one asks another for a block
     /\ Eq(<<"answer to", Ev.by>>, Answer(holds, whole, Ev.to, Ev.h), Ev.got)
     /\ UNCHANGED <<whole, slot, holds, off>>
  \/ /\ Ev.ev = "tell"                                \* a node announces some of its blocks to all its peers
     /\ LET Has(b) == Supplies(holds, Ev.by, b)
            due == HandsOn(whole, Ev.list, Has)
            words == [i \in DOMAIN Ev.list |-> <<Ev.list[i], slot[Ev.list[i]]>>]
        IN /\ Say("blocks fetched on announcement", SameBag(due, Ev.got), due, Ev.got)
           /\ Eq("announcements heard", IF Ev.by \in off THEN <<>> ELSE words, Ev.heard)
     /\ UNCHANGED <<whole, slot, holds, off>>
  \/ /\ Ev.ev = "hear"                                \* the driver's peer announces blocks and answers requests in pieces
     /\ LET Full(x) == x[2] = "full"
            fetched == SelectSeq(Ev.list, Full)
            due == [i \in DOMAIN fetched |-> whole[fetched[i][1]]]
        IN Say("blocks handed on", SameBag(due, Ev.got), due, Ev.got)
     /\ UNCHANGED <<whole, slot, holds, off>>
  \/ /\ Ev.ev = "odd" /\ UNCHANGED <<whole, slot, holds, off>>    \* what means nothing changes nothing
  \/ /\ Ev.ev = "keep" /\ holds' = Keeps(holds, Ev.to, Ev.h) /\ UNCHANGED <<whole, slot, off>>
  \/ /\ Ev.ev = "drop" /\ off' = off \cup {Ev.to} /\ UNCHANGED <<whole, slot, holds>>
  \/ /\ Ev.ev = "join" /\ off' = off \ {Ev.to} /\ UNCHANGED <<whole, slot, holds>>
Init == whole = <<>> /\ slot = <<>> /\ holds = <<>> /\ off = {} /\ l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
