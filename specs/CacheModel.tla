------------------------------ MODULE CacheModel ------------------------------
(* Design of the state cache: clean entries may vanish at any time, dirty ones carry the committed value they replace
   and how they differ from it. Run in lock-step with the abstract store; checked exhaustively on a small instance. *)
EXTENDS StateStore
CONSTANTS Keys, Values, MaxSteps
VARIABLES s,      \* the abstract store
          db,     \* committed map
          clean,  \* key -> value: clean entries in the cache
          dirty,  \* key -> [snap, val, how]: uncommitted entries
          prep,   \* a prepared artifact: [base, dirty] or none
          n
vars == <<s, db, clean, dirty, prep, n>>
None == <<>>
Get(k) == IF k \in DOMAIN dirty THEN (IF dirty[k].how = "remove" THEN Nothing ELSE Just(dirty[k].val))
          ELSE IF k \in DOMAIN clean THEN Just(clean[k])
          ELSE IF k \in DOMAIN db THEN Just(db[k]) ELSE Nothing
GetClean(k) == IF k \in DOMAIN dirty THEN (IF dirty[k].how = "add" THEN Nothing ELSE Just(dirty[k].snap))
               ELSE IF k \in DOMAIN clean THEN Just(clean[k])
               ELSE IF k \in DOMAIN db THEN Just(db[k]) ELSE Nothing
(* what a read leaves in the cache *)
Load(k) == IF k \in DOMAIN dirty \/ k \in DOMAIN clean \/ k \notin DOMAIN db THEN clean ELSE With(clean, k, db[k])
Snap(k) == IF k \in DOMAIN dirty THEN dirty[k].snap ELSE Load(k)[k]
Add(k, v) ==
  /\ ~Get(k).has
  /\ dirty' = With(dirty, k, IF k \in DOMAIN dirty THEN [snap |-> dirty[k].snap, val |-> v, how |-> "update"] ELSE [snap |-> v, val |-> v, how |-> "add"])
  /\ s' = Put(s, k, v) /\ UNCHANGED <<db, clean, prep>>
Update(k, v) ==
  /\ Get(k).has
  /\ dirty' = With(dirty, k, [snap |-> Snap(k), val |-> v, how |-> IF k \in DOMAIN dirty /\ dirty[k].how = "add" THEN "add" ELSE "update"])
  /\ clean' = Load(k) /\ s' = Put(s, k, v) /\ UNCHANGED <<db, prep>>
Remove(k) ==
  /\ Get(k).has
  /\ IF k \in DOMAIN dirty /\ dirty[k].how = "add" THEN dirty' = Without(dirty, k) /\ clean' = Without(clean, k)
     ELSE dirty' = With(dirty, k, [snap |-> Snap(k), val |-> "", how |-> "remove"]) /\ clean' = Load(k)
  /\ s' = Drop(s, k) /\ UNCHANGED <<db, prep>>
Fetch(k) == clean' = Load(k) /\ UNCHANGED <<s, db, dirty, prep>>
Evict(k) == k \in DOMAIN clean /\ clean' = Without(clean, k) /\ UNCHANGED <<s, db, dirty, prep>>
RolledBack == [k \in (DOMAIN clean \cup DOMAIN dirty) \ {k \in DOMAIN dirty : dirty[k].how = "add"} |-> IF k \in DOMAIN dirty THEN dirty[k].snap ELSE clean[k]]
UndoAll == clean' = RolledBack /\ dirty' = <<>> /\ s' = Rollback(s) /\ UNCHANGED <<db, prep>>
Written(d, old) == [k \in (DOMAIN old \cup DOMAIN d) \ {k \in DOMAIN d : d[k].how = "remove"} |-> IF k \in DOMAIN d THEN d[k].val ELSE old[k]]
CommitAll == db' = Written(dirty, db) /\ clean' = Written(dirty, clean) /\ dirty' = <<>> /\ s' = Commit(s) /\ prep' = None
Prepare == /\ prep' = [base |-> db, d |-> dirty, next |-> Applied(s.com, s.pend)]
           /\ clean' = RolledBack /\ dirty' = <<>> /\ s' = Rollback(s) /\ UNCHANGED db
Apply == /\ prep # None /\ DOMAIN dirty = {}
         /\ db' = Written(prep.d, db) /\ clean' = Written(prep.d, clean) /\ s' = [com |-> prep.next, pend |-> <<>>] /\ prep' = None /\ UNCHANGED dirty
Init == s = [com |-> <<>>, pend |-> <<>>] /\ db = <<>> /\ clean = <<>> /\ dirty = <<>> /\ prep = None /\ n = 0
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E k \in Keys : \/ \E v \in Values : Add(k, v) \/ Update(k, v)
                              \/ Remove(k) \/ Fetch(k) \/ Evict(k)
           \/ UndoAll \/ CommitAll \/ Prepare \/ Apply
Spec == Init /\ [][Next]_vars
ReadsAgree == \A k \in Keys : Get(k) = Read(s, k)
CleanReadsAgree == \A k \in Keys : GetClean(k) = Committed(s, k)
DatabaseAgrees == db = s.com
(* an entry is marked exactly by how it differs from the database, so the trie is edited the right way *)
MarksRight == \A k \in DOMAIN dirty : (dirty[k].how = "add") = (k \notin DOMAIN db)
PreparedRight == prep # None => (prep.base = db => Written(prep.d, db) = prep.next)
=============================================================================
