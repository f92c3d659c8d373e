------------------------------ MODULE StoreTrace ------------------------------
(* Replays a recorded run of the state store: every answer must be the one StateStore and StateRoot call for. *)
EXTENDS StateStore, StateRoot, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, arts, l
vars == <<s, arts, l>>
Ev == Trace[l]
Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE
Eq(name, exp, got) == Say(name, exp = got, exp, got)
Got == [has |-> Ev.has, v |-> Ev.v]
DeltaOf(ds) == [k \in {ds[i].k : i \in DOMAIN ds} |-> LET d == ds[CHOOSE i \in DOMAIN ds : ds[i].k = k] IN [w |-> d.w, v |-> d.v]]

Mutate(can, t) == IF Ev.ok THEN Say("operation must be refused", can, FALSE, TRUE) /\ s' = t
                  ELSE Say("operation must succeed", ~can, TRUE, Ev.err) /\ s' = s
Step ==
  \/ /\ Ev.ev = "init" /\ s' = [com |-> <<>>, pend |-> <<>>] /\ arts' = <<>> /\ Eq("empty root", Root(<<>>), Ev.root)
  \/ /\ Ev.ev = "add" /\ Mutate(CanAdd(s, Ev.k), Put(s, Ev.k, Ev.v)) /\ UNCHANGED arts
  \/ /\ Ev.ev = "upd" /\ Mutate(CanUpdate(s, Ev.k), Put(s, Ev.k, Ev.v)) /\ UNCHANGED arts
  \/ /\ Ev.ev = "rem" /\ Mutate(CanRemove(s, Ev.k), Drop(s, Ev.k)) /\ UNCHANGED arts
  \/ /\ Ev.ev = "get" /\ Eq("read", Read(s, Ev.k), Got) /\ UNCHANGED <<s, arts>>
  \/ /\ Ev.ev = "clean" /\ Eq("clean read", Committed(s, Ev.k), Got) /\ UNCHANGED <<s, arts>>
  \/ /\ Ev.ev = "db" /\ Eq("read from the database", Committed(s, Ev.k), Got) /\ UNCHANGED <<s, arts>>
  \/ /\ Ev.ev = "rollback" /\ s' = Rollback(s) /\ UNCHANGED arts
  \/ /\ Ev.ev = "evict" /\ UNCHANGED <<s, arts>>
  \/ /\ Ev.ev = "root" /\ Eq("root", Root(s.com), Ev.root) /\ UNCHANGED <<s, arts>>
  \/ /\ Ev.ev = "commit" /\ Say("commit", Ev.ok, "ok", Ev.err) /\ s' = Commit(s) /\ arts' = <<>>
     /\ Eq("root after commit", Root(Commit(s).com), Ev.root)
  \/ /\ Ev.ev = "prepare" /\ Say("prepare", Ev.ok, "ok", Ev.err) /\ s' = Rollback(s)
     /\ LET next == Applied(s.com, s.pend) IN
        IF Ev.none THEN Eq("nothing to prepare", s.com, next) /\ arts' = Append(arts, [base |-> s.com, next |-> s.com])
        ELSE /\ Eq("provisional root", Root(next), Ev.root)
             /\ Eq("reported changes", next, Applied(s.com, DeltaOf(Ev.delta)))
             /\ arts' = Append(arts, [base |-> s.com, next |-> next])
     /\ Eq("root during preparation", Root(s.com), Ev.now)
  \/ /\ Ev.ev = "apply" /\ Say("apply", Ev.ok, "ok", Ev.err)
     /\ s' = [com |-> arts[Ev.i].next, pend |-> <<>>] /\ arts' = <<>>
     /\ Eq("root after applying", Root(arts[Ev.i].next), Ev.root)
Init == s = <<>> /\ arts = <<>> /\ l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
