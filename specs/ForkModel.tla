------------------------------- MODULE ForkModel -------------------------------
(* The design behind conformance sessions, in lock-step with ForkSession: one committed state and its known keys, a
   prepared set of changes per staged block. Explored exhaustively for every tree of up to MaxBlocks blocks. *)
EXTENDS ForkSession, Integers, TLC
CONSTANTS Keys, Values, MaxBlocks, MaxOps
VARIABLES s,          \* abstract session
          post,       \* abstract: posterior state of every valid block (a function on a subset of Keys)
          par,        \* parent of every block
          com, keys, diffs, n   \* mechanism: committed state, its keys, changes of staged blocks
vars == <<s, post, par, com, keys, diffs, n>>
Removed == 0
Deltas == UNION {[d -> Values \cup {Removed}] : d \in SUBSET Keys}
Apply(f, d) == [k \in (DOMAIN f \cup DOMAIN d) \ {x \in DOMAIN d : d[x] = Removed} |-> IF k \in DOMAIN d THEN d[k] ELSE f[k]]
Added(f, d) == {k \in DOMAIN d : d[k] # Removed}
Gone(d) == {k \in DOMAIN d : d[k] = Removed}
Ids == DOMAIN par
Init == /\ \E f \in {[k \in Keys |-> 1], [k \in {} |-> 1]} : post = (0 :> f) /\ com = f /\ keys = DOMAIN f
        /\ par = (0 :> -1) /\ diffs = <<>> /\ n = 0 /\ \E g \in BOOLEAN : s = Opened(Shaken(g), 0)
(* the mechanism settles a staged parent by applying its changes *)
Com1(p) == IF p \in DOMAIN diffs THEN Apply(com, diffs[p]) ELSE com
Keys1(p) == IF p \in DOMAIN diffs THEN (keys \cup Added(com, diffs[p])) \ Gone(diffs[p]) ELSE keys
Import(b, p, d, good) ==
  LET c1 == Com1(p)  k1 == Keys1(p)  settled == p \in DOMAIN diffs
      ok == Takes(s, p, good) IN
  /\ s' = AfterImport(s, b, p, good)
  /\ com' = IF ok /\ ~s.forking THEN Apply(c1, d) ELSE c1
  /\ keys' = IF ok /\ ~s.forking THEN (k1 \cup Added(c1, d)) \ Gone(d) ELSE k1
  /\ diffs' = IF ok /\ s.forking THEN (b :> d) @@ (IF settled THEN <<>> ELSE diffs) ELSE IF settled THEN <<>> ELSE diffs
  /\ par' = (b :> p) @@ par
  /\ post' = IF good /\ p \in DOMAIN post THEN (b :> Apply(post[p], d)) @@ post ELSE post
  /\ n' = n + 1
Diff(f, g) == [k \in {x \in DOMAIN f \cup DOMAIN g : ~(x \in DOMAIN f /\ x \in DOMAIN g /\ f[x] = g[x])} |-> IF k \in DOMAIN g THEN g[k] ELSE Removed]
Next ==
  /\ n < MaxOps
  /\ \/ /\ Cardinality(Ids) <= MaxBlocks
        /\ \E p \in Ids : \E good \in BOOLEAN : \E d \in (IF good THEN Deltas ELSE {<<>>}) :
             /\ (\A k \in Gone(d) : p \in DOMAIN post /\ k \in DOMAIN post[p]) /\ (good => p \in DOMAIN post)
             /\ Import(Cardinality(Ids), p, d, good)
     \/ \E b \in Ids \ {0} : LET p == par[b] IN Import(b, p, IF b \in DOMAIN post THEN Diff(post[p], post[b]) ELSE <<>>, b \in DOMAIN post)
Spec == Init /\ [][Next]_vars
Report(h) == IF h = s.head THEN [k \in keys |-> com[k]]
             ELSE [k \in (keys \cup Added(com, diffs[h])) \ Gone(diffs[h]) |-> IF k \in DOMAIN diffs[h] THEN diffs[h][k] ELSE com[k]]
HeadExact == com = post[s.head] /\ keys = DOMAIN com
ReportsExact == \A h \in Known(s) : Report(h) = post[h]
StagedAreChildren == \A b \in s.staged : par[b] = s.head
StagedTracked == DOMAIN diffs = s.staged
RECURSIVE Line(_, _)
Line(m, b) == IF b = -1 THEN {} ELSE {b} \cup Line(m, m[b])
HeadDescends == [][s.head \in Line(par', s'.head)]_vars
HeadMovesOnDemand == [][s'.head # s.head => \/ s'.head \in s.staged \/ (~s.forking /\ par'[s'.head] = s.head)]_vars
=============================================================================
