----------------------------- MODULE ShuffleLaws -----------------------------
(* Guarantor assignment and fallback keys for every slot of an epoch under many randomnesses. *)
EXTENDS Reports
CONSTANTS Seeds, MaxLen
VARIABLES s, t
Init == s \in Seeds /\ t = 0
Next == t < 2 * E /\ t' = t + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, t>>
Eta == <<Blake(ToString(s)), Blake(ToString(s + 1)), Blake(ToString(s + 2)), Blake(ToString(s + 3))>>
Key(i) == [b |-> "b" \o ToString(i), e |-> "e" \o ToString(i), h |-> ""]
Set(k) == [i \in 1..V |-> Key(i + k)]
(* a shuffle is a rearrangement *)
Rearranges == t = 0 => \A n \in 0..MaxLen : LET x == Shuffle([i \in 1..n |-> i], Eta[1]) IN Len(x) = n /\ Elems(x) = 1..n
(* every core has its even share of validators *)
Even == \A c \in 0..(C - 1) : LET n == Cardinality({v \in 1..V : Assignment(Eta[3], t)[v] = c}) IN n >= V \div C /\ n <= (V + C - 1) \div C
(* within a rotation nothing moves; from one to the next every validator moves to the next core *)
Moves == Phase(t) # 0 => LET now == Assignment(Eta[3], t) old == Assignment(Eta[3], t - 1) IN
         IF t \div R = (t - 1) \div R THEN now = old ELSE \A v \in 1..V : now[v] = (old[v] + 1) % C
(* the previous rotation's assignment is what the current one was R slots ago *)
Consistent == t >= R => AssignPrev(t, Eta, Set(0), Set(1), <<>>) =
  IF Epoch(t - R) = Epoch(t) THEN AssignNow(t - R, Eta, Set(0), <<>>)
  ELSE AssignNow(t - R, <<Eta[2], Eta[3], Eta[4], Eta[4]>>, Set(1), <<>>)
FallbackMembers == LET k == FallbackKeys(Eta[3], Set(0)) IN Len(k) = E /\ Elems(k) \subseteq {Key(i).b : i \in 1..V}
OffendersBarred == \A v \in 1..V : AssignNow(t, Eta, Set(0), <<Key(v).e>>).keys[v].e = Z32
(* the contest's winners, lowest and highest in turn *)
OutsideInFair == t = 0 => \A n \in 0..MaxLen : LET x == OutsideIn([i \in 1..n |-> i]) IN Len(x) = n /\ Elems(x) = 1..n /\ \A i \in 1..n : x[i] = IF i % 2 = 1 THEN (i + 1) \div 2 ELSE n + 1 - (i \div 2)
=============================================================================
