----------------------------- MODULE MerkleLaws -----------------------------
(* Laws of the binary trees and ranges, for every length up to MaxLen and every page size and page. *)
EXTENDS Merkle
CONSTANTS MaxLen, MaxPage
VARIABLES v, peaks
Leaf_(i) == LEnc(i, 4)
Init == v = <<>> /\ peaks = <<>>
Next == Len(v) < MaxLen /\ v' = Append(v, Blake(Leaf_(Len(v) + 1))) /\ peaks' = RangeAppend(peaks, v'[Len(v')])
Spec == Init /\ [][Next]_<<v, peaks>>
Pages(x) == 0..(((Len(v) - 1) \div (2 ^ x)))
(* appending one by one builds the range of the whole list *)
RangeAgrees == peaks = RangeOf(v)
(* the proof of every page leads from its leaves to the root, and from no other page's or altered leaves *)
ProofsLead == v # <<>> => \A h \in {"b", "k"} : \A x \in 0..MaxPage : \A p \in Pages(x) :
  VerifiedRoot(h, Len(v), PageLeaves(h, v, x, p), x, p, PageProof(h, v, x, p)) = ConstantDepth(h, v)
ProofsBind == v # <<>> => \A x \in 0..MaxPage : \A p \in Pages(x) : \A q \in Pages(x) \ {p} :
  /\ VerifiedRoot("b", Len(v), PageLeaves("b", v, x, q), x, p, PageProof("b", v, x, p)) # ConstantDepth("b", v)
  /\ Len(PageProof("b", v, x, p)) = Len(PageProof("b", v, x, q))
(* each list has its own root, and so has each order of its leaves *)
Roots(w) == <<WellBalanced("k", w), ConstantDepth("b", w)>>
Swapped(i, j) == [v EXCEPT ![i] = v[j], ![j] = v[i]]
RootsDiffer == \A i, j \in DOMAIN v : i < j => WellBalanced("k", Swapped(i, j)) # WellBalanced("k", v) /\ ConstantDepth("b", Swapped(i, j)) # ConstantDepth("b", v)
               /\ SuperPeak(RangeOf(Swapped(i, j))) # SuperPeak(peaks)
Grows == [][WellBalanced("k", v') # WellBalanced("k", v) /\ ConstantDepth("b", v') # ConstantDepth("b", v) /\ SuperPeak(peaks') # SuperPeak(peaks)]_<<v, peaks>>
=============================================================================
