------------------------------ MODULE CodecLaws ------------------------------
(* Every layout reads every short string in at most one way, and no two canonical strings stand for one value: over all strings of up to
   MaxLen octets from a few, built one octet at a time. *)
EXTENDS Codec, FiniteSets
CONSTANTS Octets_, MaxLen, Names
VARIABLE h
Init == h = ""
Next == HexLen(h) < MaxLen /\ \E b \in Octets_ : h' = HexCat(<<h, b>>)
Spec == Init /\ [][Next]_h
Reads(n, s) == Read(Layouts[n], s, 0)
(* reading never goes past the string; what is read does not depend on what follows (but for what takes all that is left) *)
Bounded == \A n \in Names : LET r == Reads(n, h) IN r.ok => r.n <= HexLen(h)
PrefixFree == [][\A n \in Names : LET r == Reads(n, h) q == Reads(n, h') IN r.ok => q.ok /\ q.n = r.n /\ q.s = r.s /\ q.odd = r.odd]_h
(* one value, one canonical string: the strings seen so far that read to the same value are the same *)
RECURSIVE Strings(_)
Strings(k) == IF k = 0 THEN {""} ELSE {HexCat(<<s, b>>) : s \in Strings(k - 1), b \in Octets_}
OneForm == h = "" => \A n \in Names : \A k \in 1..MaxLen :
  LET good == {s \in Strings(k) : LET r == Reads(n, s) IN r.ok /\ ~r.odd /\ r.n = k}
      all == UNION {{<<Reads(n, s).s, s>> : s \in {t \in Strings(j) : LET r == Reads(n, t) IN r.ok /\ ~r.odd /\ r.n = j}} : j \in 1..k}
  IN Cardinality(all) = Cardinality({x[1] : x \in all})
(* whole numbers: the form is the shortest, and longer forms mean no smaller numbers *)
Shortest == \A x \in {"0", "1", "127", "128", "16383", "16384", "2097151", "2097152", "72057594037927935", "72057594037927936", "18446744073709551615"} :
  LET c == Compact(x) r == Reads("u64", c) IN r.ok /\ ~r.odd /\ r.s = x /\ r.n = HexLen(c)
=============================================================================
