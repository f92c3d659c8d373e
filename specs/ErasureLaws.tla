----------------------------- MODULE ErasureLaws -----------------------------
(* Any k of the n shards determine the data: every k by k minor of the code's matrix is invertible. Data shards are the data itself. *)
EXTENDS Erasure
CONSTANTS Ks, N_
VARIABLES k, pick
Init == k \in Ks /\ pick = <<>>
Next == Len(pick) < k /\ \E x \in (IF pick = <<>> THEN 0 ELSE Last_(pick) + 1)..(N_ - 1) : pick' = Append(pick, x) /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, pick>>
Minus(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* determinant by expansion along the first row; signs do not matter in a field where 1 + 1 = 0 *)
RECURSIVE Det(_)
Det(m) == IF Len(m) = 0 THEN 1
          ELSE GSum([i \in DOMAIN m |-> GMul(m[1][i], Det([r \in 1..(Len(m) - 1) |-> Minus(m[r + 1], i)]))], 1, Len(m))
Recoverable == Len(pick) = k => Det([i \in 1..k |-> Weights(k, pick[i])]) # 0
Systematic == Len(pick) = 1 /\ pick[1] < k => Weights(k, pick[1]) = [j \in 1..k |-> IF j - 1 = pick[1] THEN 1 ELSE 0]
=============================================================================
