----------------------------- MODULE PoolTrace -----------------------------
(* What the pool of extrinsics did, one call after another ("new", "add", "get") and from several threads at once ("par"), against Pool. *)
EXTENDS Pool, Integers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p, max
Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE
Ev == Trace[l]
New == Ev.ev = "new" /\ p' = EmptyPool /\ max' = Ev.max
AddEv ==
  /\ Ev.ev = "add" /\ UNCHANGED max
  /\ LET x == <<Ev.kind, Ev.id>>
         k == Key(Ev.kind, Ev.slot)
         known == x \in p.held
     IN /\ Say("answer to what is handed in", IF known /\ Full(p, max) THEN Ev.res \in {"ok", "full"} ELSE Ev.res = (IF Refused(p, max, x) THEN "full" ELSE "ok"), Full(p, max), Ev.res)
        /\ p' = (IF Ev.res = "ok" THEN Add(p, k, x) ELSE p)
        /\ Say("how many are held", Ev.held = Cardinality(p'.held), Cardinality(p'.held), Ev.held)
Items(k, q) == [i \in DOMAIN q |-> <<k, q[i]>>]
GetEv ==
  /\ Ev.ev = "get" /\ UNCHANGED <<p, max>>
  /\ LET want == Listed(p, Key(Ev.kind, Ev.slot))
     IN Say("what is listed", Items(Ev.kind, Ev.ids) = want, want, Ev.ids)
(* Several threads: the calls with the moments they began and ended, and what is listed when all have ended. *)
Of(S, k) == {s \in S : Key(s.kind, s.slot) = k}
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
Par ==
  /\ Ev.ev = "par" /\ UNCHANGED <<p, max>>
  /\ Say("every call comes to an end", ~Ev.stuck, FALSE, Ev.stuck)
  /\ LET adds == Range(Ev.adds)
         good == {a \in adds : a.res = "ok"}
         item(a) == <<a.kind, a.id>>
         FinalOf(k) == LET f == {x \in Range(Ev.final) : Key(x.kind, x.slot) = k} IN IF f = {} THEN <<>> ELSE (CHOOSE x \in f : TRUE).ids
         keys == {Key(a.kind, a.slot) : a \in adds} \cup {Key(g.kind, g.slot) : g \in Range(Ev.gets)}
     IN /\ Say("how many are held", Ev.held = Cardinality({item(a) : a \in good}) /\ Ev.held <= Ev.max, Cardinality({item(a) : a \in good}), Ev.held)
        /\ \A k \in keys :
             LET q == FinalOf(k)
                 G == Of(good, k)
             IN /\ Say("each is listed once", Cardinality(Range(q)) = Len(q), k, q)
                /\ Say("all that were taken are listed", Range(q) = {a.id : a \in G}, {a.id : a \in G}, q)
                /\ \A i, j \in DOMAIN q : i < j =>
                     Say("in the order they were handed in", \E a \in G : a.id = q[i] /\ \E b \in G : b.id = q[j] /\ \A c \in G : c.id = q[j] => a.from < c.to, k, q)
                /\ \A g \in Of(Range(Ev.gets), k) :
                     /\ Say("a list only ever grows", Prefix(g.ids, q), q, g.ids)
                     /\ Say("what was taken before is listed", \A a \in G : a.to < g.from => a.id \in Range(g.ids), G, g)
                     /\ Say("nothing is listed before it is handed in", \A x \in Range(g.ids) : \E a \in G : a.id = x /\ a.from < g.to, G, g)
        /\ \A a \in adds \ good :
             Say("only a full pool refuses", a.res = "full" /\ Cardinality({item(b) : b \in {b \in good : b.from < a.to}}) >= Ev.max, Ev.max, a)
Init == l = 1 /\ p = EmptyPool /\ max = 0
Next == l <= Len(Trace) /\ (New \/ AddEv \/ GetEv \/ Par) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, p, max>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
