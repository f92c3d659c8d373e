------------------------------- MODULE StoreGen -------------------------------
(* Behaviours of the state store over symbolic keys and values, for replay into the real one (TLC -simulate), and a
   small exhaustive instance. Operations that must be refused are included on purpose. *)
EXTENDS StateStore, Json, IOUtils, Emit
CONSTANTS RawKeys, TypedKeys, Values, Depth
Keys == RawKeys \cup TypedKeys
VARIABLES s, arts, log, n
vars == <<s, arts, log, n>>
Op(o, k, v, api) == [op |-> o, k |-> k, v |-> v, api |-> api, i |-> 0]
Apis(k) == IF k \in TypedKeys THEN {"raw", "typed"} ELSE {"raw"}
Do(o) ==
  /\ CASE o.op = "add" -> s' = (IF CanAdd(s, o.k) THEN Put(s, o.k, o.v) ELSE s) /\ UNCHANGED arts
       [] o.op = "upd" -> s' = (IF CanUpdate(s, o.k) THEN Put(s, o.k, o.v) ELSE s) /\ UNCHANGED arts
       [] o.op = "rem" -> s' = (IF CanRemove(s, o.k) THEN Drop(s, o.k) ELSE s) /\ UNCHANGED arts
       [] o.op = "rollback" -> s' = Rollback(s) /\ UNCHANGED arts
       [] o.op = "commit" -> s' = Commit(s) /\ arts' = <<>>
       [] o.op = "prepare" -> s' = Rollback(s) /\ arts' = Append(arts, [base |-> s.com, next |-> Applied(s.com, s.pend)])
       [] o.op = "apply" -> s' = [com |-> arts[o.i].next, pend |-> <<>>] /\ arts' = <<>>
       [] OTHER -> UNCHANGED <<s, arts>>
  /\ log' = Append(log, o) /\ n' = n + 1
(* likelihoods matter only for generation: mostly operations that succeed, often on keys in use *)
Mut == UNION {{Op("add", k, v, a) : v \in Values, a \in Apis(k)} \cup {Op("upd", k, v, a) : v \in Values, a \in Apis(k)} \cup {Op("rem", k, 0, a) : a \in Apis(k)} : k \in Keys}
Good(o) == CASE o.op = "add" -> CanAdd(s, o.k) [] o.op = "upd" -> CanUpdate(s, o.k) [] o.op = "rem" -> CanRemove(s, o.k)
Reads == UNION {{Op(r, k, 0, a) : r \in {"get", "clean"}, a \in Apis(k)} : k \in Keys} \cup {Op("db", k, 0, "raw") : k \in Keys}
Control == {Op("rollback", 0, 0, ""), Op("root", 0, 0, "")} \cup (IF DOMAIN s.pend = {} THEN {Op("evict", 0, 0, "")} ELSE {})
Store == {Op("commit", 0, 0, ""), Op("prepare", 0, 0, "")}
         \cup (IF DOMAIN s.pend = {} THEN {[Op("apply", 0, 0, "") EXCEPT !.i = i] : i \in DOMAIN arts} ELSE {})
Pick == LET d == RandomElement(1..100) IN
        IF d <= 52 THEN RandomElement({o \in Mut : Good(o)})
        ELSE IF d <= 60 THEN RandomElement(Mut)
        ELSE IF d <= 82 THEN RandomElement(Reads)
        ELSE IF d <= 88 THEN RandomElement(Control)
        ELSE RandomElement(Store)
Init == s = [com |-> <<>>, pend |-> <<>>] /\ arts = <<>> /\ log = <<>> /\ n = 0
GenNext == n < Depth /\ LET o == Pick IN Do(o)
Spec == Init /\ [][GenNext]_vars
Done == n = Depth => EmitOnce(IOEnv.GEN_OUT, ToJson(log))
=============================================================================
