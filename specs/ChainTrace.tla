----------------------------- MODULE ChainTrace -----------------------------
(* Replays a trace recorded from the node against the specification.
   Each line is an event; the trace is accepted iff every line is a step of the specification. *)
EXTENDS Chain, Json, IOUtils
CONSTANTS Watch,  \* names of the state components this run compares
          Judge   \* names of the rule families whose violation by an accepted block this run reports
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
vars == <<st, l>>
Ev == Trace[l]

Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE

Same(exp, got, c) ==
  IF c = "stats"
  THEN /\ exp.cur = got.cur /\ exp.prev = got.prev /\ exp.cores = got.cores
       /\ exp.svcs = Elems(got.svcs) /\ Len(got.svcs) = Cardinality(exp.svcs)
  ELSE exp = got

After == [c \in DOMAIN st |-> IF c \in DOMAIN Ev.post THEN Ev.post[c] ELSE st[c]]
Compare(c) ==
  LET exp == NextOf(c, st, Ev)
  IN Say(c, Same(exp, After[c], c), exp, After[c])

InitEv == Ev.ev = "init" /\ st' = Ev.st

(* After each event the recorded state becomes the specification's state, once the watched part agrees. *)
JudgedEv ==
     IF Ev.res = "ok"
     THEN /\ \A i \in {k \in 1..6 : RuleNames[k] \in Judge} : Say(<<"accepted", RuleNames[i]>>, Rule(RuleNames[i], st, Ev), "reject", Ev.mut)
          /\ \A c \in Watch : Compare(c)
          /\ Say("best", Ev.best = Ev.hdr.hash, Ev.hdr.hash, Ev.best)
          /\ Say("told", Ev.told = Ev.root, Ev.root, Ev.told)
          /\ Say("twin", Ev.twin = Ev.root, Ev.twin, Ev.root)
          /\ st' = [After EXCEPT !.root = Ev.root, !.best = Ev.best]
     ELSE /\ Say("rejected", Ev.res = "rej" /\ ~Acceptable(st, Ev), "accept", <<Ev.res, Ev.mut>>)
          /\ Say("rejected block left a change", DOMAIN Ev.post = {}, {}, DOMAIN Ev.post)
          /\ Say("root after rejection", Ev.root = st.root, st.root, Ev.root)
          /\ Say("best after rejection", Ev.best = st.best, st.best, Ev.best)
          /\ Say("twin", Ev.twin = Ev.root, Ev.twin, Ev.root)
          /\ st' = st
BlockEv == Ev.ev = "block" /\ JudgedEv

(* A turn of the node's own author: the accounts' claims to the slot, who was asked, whether a block came out. *)
TurnEv ==
  /\ Ev.ev = "turn"
  /\ LET s == NextSealers(st, Ev.slot)
         later == Ev.slot > st.slot
         m == Phase(Ev.slot) + 1
         owns == IF s.kind = "k" THEN s.k[m] = Ev.by ELSE Ev.out = s.t[m].id
     IN /\ IF later THEN \A i \in DOMAIN Ev.claims : Say(<<"claim", i>>, Ev.claims[i].own = (s.k[m] = Ev.claims[i].k), s.k[m], Ev.claims[i]) ELSE TRUE
        /\ Say("authored", Ev.did = (later /\ owns), later /\ owns, Ev.did)
        /\ IF Ev.did THEN Say("authoring finished", Ev.well, TRUE, Ev.well)
           ELSE Say("root when not authoring", Ev.root = st.root, st.root, Ev.root)
  /\ st' = st
(* The block it made, offered to another node. *)
AuthoredEv == Ev.ev = "authored" /\ Say("authored block", Ev.res = "ok", "ok", Ev.res)
              /\ Say("slot of the authored block", Ev.slot = Ev.turn, Ev.turn, Ev.slot)
              /\ ("heard" \in DOMAIN Ev => Say("a peer that hears of the authored block", Ev.heard = "the block", "the block", Ev.heard)) /\ JudgedEv

Init == st = <<>> /\ l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ (InitEv \/ BlockEv \/ TurnEv \/ AuthoredEv)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
