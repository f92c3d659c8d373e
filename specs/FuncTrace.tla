------------------------------ MODULE FuncTrace ------------------------------
(* Replays recorded function-level observations: every event must agree with the definition in the specification. *)
EXTENDS Merkle, Erasure, Network, Reports, Requests, Ancestors, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          set   \* known ancestors
Ev == Trace[l]
Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE
Eq(name, exp, got) == Say(name, exp = got, exp, got)
Holds(name, ok) == Say(name, ok, TRUE, FALSE)

(* proofs must hold for their own leaf page and for no other position or content *)
PageSound ==
  LET n == Len(Ev.v) h == Ev.h root == ConstantDepth(h, Ev.v)
      x == Min2(Ev.x, Log2(Padded(n)))
      pages == (Padded(n)) \div (2 ^ x) IN
  /\ Holds("proof verifies", VerifiedRoot(h, n, Ev.leaves, Ev.x, Ev.p, Ev.proof) = root)
  /\ \A q \in 0..(pages - 1) :
       LET other == PageLeaves(h, Ev.v, x, q) IN
       (PageRoot(h, other, x) # PageRoot(h, Ev.leaves, x) \/ q # Ev.p) =>
         (VerifiedRoot(h, n, other, x, Ev.p, Ev.proof) = root => PageRoot(h, other, x) = PageRoot(h, Ev.leaves, x))

Step ==
  CASE Ev.ev = "wb" -> Eq("well-balanced root", WellBalanced(Ev.h, Ev.v), Ev.out)
    [] Ev.ev = "cd" -> Eq("constant-depth root", ConstantDepth(Ev.h, Ev.v), Ev.out)
    [] Ev.ev = "page" -> /\ Eq("page proof", PageProof(Ev.h, Ev.v, Ev.x, Ev.p), Ev.proof)
                         /\ Eq("page leaves", PageLeaves(Ev.h, Ev.v, Ev.x, Ev.p), Ev.leaves)
                         /\ PageSound
    [] Ev.ev = "range" -> /\ Eq("peaks after append", RangeAppend(Ev.pre, Ev.leaf), Ev.post)
                          /\ Eq("peaks of all leaves", RangeOf(Ev.all), Ev.post)
                          /\ Eq("super peak", SuperPeak(Ev.post), Ev.super)
    [] Ev.ev = "shuffle" -> /\ Eq("shuffle", Shuffle(Ev.v, Ev.hash), Ev.out)
                            /\ Holds("permutation", \A x \in Elems(Ev.v) : Cardinality({i \in DOMAIN Ev.v : Ev.v[i] = x}) = Cardinality({i \in DOMAIN Ev.out : Ev.out[i] = x}))
    [] Ev.ev = "assign" ->
         LET a == AssignNow(Ev.slot, Ev.eta, Ev.active, Ev.off) p == AssignPrev(Ev.slot, Ev.eta, Ev.active, Ev.past, Ev.off) IN
         /\ Eq("cores", a.cores, Ev.now.cores) /\ Eq("keys", a.keys, Ev.now.keys)
         /\ Eq("previous cores", p.cores, Ev.prev.cores) /\ Eq("previous keys", p.keys, Ev.prev.keys)
         /\ Holds("even", \A c \in 0..(C - 1) : Cardinality({i \in 1..V : Ev.now.cores[i] = c}) = V \div C
                                                  /\ Cardinality({i \in 1..V : Ev.prev.cores[i] = c}) = V \div C)
    [] Ev.ev = "fallback" -> Eq("fallback keys", FallbackKeys(Ev.eta, Ev.set), Ev.out)
    [] Ev.ev = "encode" -> \A s \in DOMAIN Ev.at : Eq(<<"shard", Ev.at[s]>>, Shard(Ev.data, Ev.k, Ev.at[s]), Ev.shards[s])
    [] Ev.ev = "recover" -> IF Cardinality(Elems(Ev.have)) >= Ev.k
                            THEN Eq("recovered", [ok |-> TRUE, data |-> Pad(Ev.data, Ev.k)], [ok |-> Ev.ok, data |-> Ev.out])
                            ELSE Eq("refused", FALSE, Ev.ok)
    [] Ev.ev = "net" -> /\ Eq("peers", Known(Ev.n), Elems(Ev.known))
                        /\ Eq("each once", Cardinality(Elems(Ev.known)), Len(Ev.known))
                        /\ Eq("contacts", Contacts(Ev.n), Elems(Ev.contacted))
    [] Ev.ev = "lookup" ->   \* what a request's record says about slots; nothing without the preimage or the record
         \A i \in DOMAIN Ev.ask : Eq(<<"found at", Ev.ask[i]>>, IF Ev.kept /\ Ev.asked /\ Covered(Ev.at, Ev.ask[i]) THEN <<Ev.data>> ELSE <<>>, Ev.got[i])
    [] Ev.ev = "anc" ->
         LET now == CASE Ev.op = "add" -> AddedAll(set, Ev.x, L)
                      [] Ev.op = "remove" -> set \ Elems(Ev.x)
                      [] Ev.op = "new" -> {}
         IN /\ IF Ev.op = "remove" THEN Eq("removed", Elems(Ev.x) \cap set # {}, Ev.was) ELSE TRUE
            /\ Eq("known ancestors", now \cap Elems(Ev.ask), Elems(Ev.held))
            /\ Eq("how many", Cardinality(now), Ev.len)
    [] OTHER -> FALSE
NextSet == IF Ev.ev # "anc" THEN set
           ELSE CASE Ev.op = "add" -> AddedAll(set, Ev.x, L) [] Ev.op = "remove" -> set \ Elems(Ev.x) [] Ev.op = "new" -> {}

Init == l = 1 /\ set = {}
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ set' = NextSet
Spec == Init /\ [][Next]_<<l, set>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
