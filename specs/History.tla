------------------------------- MODULE History -------------------------------
(* Recent-block history and the accumulation-output commitment. *)
EXTENDS AccQueue

LeafTag == "6c656166"  \* leaf
NodeTag == "6e6f6465"  \* node
PeakTag == "7065616b"  \* peak

(* well-balanced Merkle tree with Keccak *)
RECURSIVE KNode(_)
KNode(s) ==
  IF s = <<>> THEN Z32
  ELSE IF Len(s) = 1 THEN s[1]
  ELSE LET h == (Len(s) + 1) \div 2
       IN Keccak(NodeTag \o KNode(SubSeq(s, 1, h)) \o KNode(SubSeq(s, h + 1, Len(s))))
KRoot(s) == IF Len(s) = 1 THEN Keccak(s[1]) ELSE KNode(s)

(* Merkle mountain range: a sequence of optional peaks, <<>> or <<h>> *)
RECURSIVE MmrPut(_, _, _)
MmrPut(peaks, h, n) ==
  IF n > Len(peaks) THEN Append(peaks, <<h>>)
  ELSE IF peaks[n] = <<>> THEN [peaks EXCEPT ![n] = <<h>>]
  ELSE MmrPut([peaks EXCEPT ![n] = <<>>], Keccak(peaks[n][1] \o h), n + 1)
MmrAppend(peaks, h) == MmrPut(peaks, h, 1)
RECURSIVE PeakFold(_)
PeakFold(s) ==
  IF s = <<>> THEN Z32
  ELSE IF Len(s) = 1 THEN s[1]
  ELSE Keccak(PeakTag \o PeakFold(SubSeq(s, 1, Len(s) - 1)) \o Last_(s))
SuperPeak(peaks) == PeakFold(Concat(peaks))

(* outputs: sequence of [se: service in little-endian, h: yield], in service order *)
OutputsRoot(outputs) == KRoot(Map(outputs, LAMBDA o : o.se \o o.h))

WithParentRoot(hist, root) ==
  IF hist.h = <<>> THEN hist ELSE [hist EXCEPT !.h[Len(hist.h)].sr = root]

NextHistory(hist, b, root, outputs) ==
  LET belt == MmrAppend(hist.belt, OutputsRoot(outputs))
      e == [hash |-> b.hdr.hash, beefy |-> SuperPeak(belt), sr |-> Z32,
            pkgs |-> SortBy(Map(b.guar, LAMBDA g : <<g.rep.pkg, g.rep.seg>>), LAMBDA p : p[1])]
  IN [h |-> Tail_(Append(WithParentRoot(hist, root).h, e), H), belt |-> belt]
=============================================================================
