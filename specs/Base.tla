-------------------------------- MODULE Base --------------------------------
(* Protocol parameters and small helpers shared by all specification modules. *)
EXTENDS Prim, Integers, Sequences, FiniteSets, TLC
CONSTANTS
  V,  \* validators
  C,  \* cores
  E,  \* slots per epoch
  Y,  \* phase at which the ticket contest closes
  K,  \* tickets per extrinsic
  N,  \* ticket attempts per validator
  R,  \* guarantor rotation period
  U,  \* report availability timeout
  L,  \* maximum lookup-anchor age
  H,  \* recent-history length
  O,  \* authorizer pool size
  Q   \* authorizer queue size

SuperMajority == (2 * V) \div 3 + 1
OneThird == V \div 3
Z32 == HexZero(32)

Epoch(t) == t \div E
Phase(t) == t % E
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Last_(s) == s[Len(s)]
Elems(s) == {s[i] : i \in DOMAIN s}
In(x, s) == \E i \in DOMAIN s : s[i] = x
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Tail_(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))   \* last n elements
Head_(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
StrictHex(s) == \A i \in 1..(Len(s) - 1) : HexLT(s[i], s[i + 1])
StrictInt(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* stable insertion sort of a sequence by a byte-string key, through the sorted sequence of indices *)
RECURSIVE InsIx(_, _, _)
InsIx(keys, ixs, i) == IF ixs = <<>> THEN <<i>>
                       ELSE IF HexLT(keys[i], keys[Head(ixs)]) THEN <<i>> \o ixs
                       ELSE <<Head(ixs)>> \o InsIx(keys, Tail(ixs), i)
RECURSIVE SortIx(_, _)
SortIx(keys, n) == IF n = 0 THEN <<>> ELSE InsIx(keys, SortIx(keys, n - 1), n)
SortBy(s, Key(_)) == LET keys == [i \in DOMAIN s |-> Key(s[i])]
                         ix == SortIx(keys, Len(s))
                     IN [i \in DOMAIN s |-> s[ix[i]]]
SortHex(s) == SortBy(s, LAMBDA x : x)
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Dedup(Tail(s)) ELSE <<s[1]>> \o Dedup(Tail(s))
RECURSIVE SetToSeqH(_)
SetToSeqH(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : y = x \/ HexLT(x, y) IN <<m>> \o SetToSeqH(S \ {m})

RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : TRUE IN <<m>> \o SetToSeq2(S \ {m})

(* signing contexts *)
XA == "6a616d5f617661696c61626c65"                  \* jam_available
XE == "6a616d5f656e74726f7079"                      \* jam_entropy
XF == "6a616d5f66616c6c6261636b5f7365616c"          \* jam_fallback_seal
XG == "6a616d5f67756172616e746565"                  \* jam_guarantee
XT == "6a616d5f7469636b65745f7365616c"              \* jam_ticket_seal
X1 == "6a616d5f76616c6964"                          \* jam_valid
X0 == "6a616d5f696e76616c6964"                      \* jam_invalid
(* a logged signature names the key it was made with ("bad" when tampered with) and the signed message *)
SigOK(sig, key, msg) == sig.k = key /\ sig.m = msg

(* A validator record with every field zero: a removed offender's entry. *)
NullVal == [b |-> Z32, e |-> Z32, h |-> HexSub(Blake(HexZero(336)), 0, 8)]
=============================================================================
