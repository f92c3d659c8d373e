------------------------------- MODULE ForkTrace -------------------------------
(* Replays recorded conformance sessions against ForkSession. Fresh answers come from new sessions initialised to the
   parent; the key/value state reported for a header must be the one whose root that header has. *)
EXTENDS ForkSession, StateRoot, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, root, l
vars == <<s, root, l>>
Ev == Trace[l]
Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE
Eq(name, exp, got) == Say(name, exp = got, exp, got)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
KVs(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]]
Distinct(ps) == Cardinality({ps[i][1] : i \in DOMAIN ps}) = Len(ps)
Step ==
  \/ /\ Ev.ev = "init" /\ s' = None /\ root' = <<>>
  \/ /\ Ev.ev = "connect" /\ s' = None /\ root' = <<>>
  \/ /\ Ev.ev = "hello" /\ Eq("handshake answer", IF s.phase = "none" THEN "peer" ELSE "closed", Ev.kind)
     /\ s' = (IF s.phase = "none" THEN Shaken(Ev.forking) ELSE None) /\ UNCHANGED root
  \/ /\ Ev.ev = "open"
     /\ IF s.phase = "shaken"
        THEN /\ Eq("answer to initialise", "root", Ev.kind) /\ Say("state given once", Distinct(Ev.kvs), "", "")
             /\ Eq("root of the given state", Root(KVs(Ev.kvs)), Ev.root)
             /\ s' = Opened(s, Ev.id) /\ root' = Put(root, Ev.id, Ev.root)
        ELSE Eq("answer to initialise", "closed", Ev.kind) /\ s' = None /\ UNCHANGED root
  \/ /\ Ev.ev = "import"
     /\ IF s.phase = "none" THEN Eq("block before the handshake", "closed", Ev.kind) /\ s' = None /\ UNCHANGED root
        ELSE LET take == Takes(s, Ev.parent, Ev.fresh.ok) IN
             /\ Eq(<<"answer to block", Ev.mut>>, IF take THEN "root" ELSE "error", Ev.kind) \* Ev.msg tells why
             /\ (take => Eq(<<"root told for block", Ev.mut>>, Ev.fresh.root, Ev.root))
             /\ s' = AfterImport(s, Ev.id, Ev.parent, Ev.fresh.ok)
             /\ root' = IF Ev.fresh.ok THEN Put(root, Ev.id, Ev.fresh.root) ELSE root
  \/ /\ Ev.ev = "get"
     /\ IF s.phase = "none" THEN Eq("query before the handshake", "closed", Ev.kind) /\ s' = None
        ELSE /\ Eq("answer to query", "state", Ev.kind) /\ s' = s
             /\ (Ev.id \in Known(s) =>
                   /\ Say("keys reported once", Distinct(Ev.kvs), Cardinality({Ev.kvs[i][1] : i \in DOMAIN Ev.kvs}), Len(Ev.kvs))
                   /\ Eq("state reported for header", root[Ev.id], Root(KVs(Ev.kvs))))
     /\ UNCHANGED root
  \/ /\ Ev.ev = "odd" /\ Eq(<<"answer to", Ev.what>>, "closed", Ev.kind) /\ s' = None /\ UNCHANGED root
Init == s = <<>> /\ root = <<>> /\ l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
