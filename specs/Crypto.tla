------------------------------- MODULE Crypto -------------------------------
(* What signatures, verifiable random outputs and ring proofs are relied on for.
   Nothing here computes them: a signature is known by who made it over what, and an output by the key and context it belongs to.
   A signature: [kind, by, ring, at, ctx, msg, out]; kind is "ed" (plain), "vrf" (with an output) or "ring" (with an output, by one
   of a list of keys). *)
EXTENDS Prim, FiniteSets

(* a key takes its place in a ring only if it is a point of the curve one can prove things about; any other leaves a gap *)
Place(key) == IF BanderPoint(key) = "point" THEN key ELSE "gap"
Places(ring) == [i \in DOMAIN ring |-> Place(ring[i])]

(* made by the holder of the key at the place claimed *)
Genuine(m) == m.kind = "ring" => (m.at + 1 \in DOMAIN m.ring /\ m.ring[m.at + 1] = m.by /\ Place(m.by) # "gap")
(* m answers the question whether q.by (or someone of q.ring) signed q.msg under q.ctx *)
Answers(m, q) ==
  /\ m.kind = q.kind /\ m.ctx = q.ctx /\ m.msg = q.msg
  /\ IF m.kind = "ring" THEN Places(m.ring) = Places(q.ring) ELSE m.by = q.by
  /\ Genuine(m)

(* one key and context, one output: through plain signatures and ring proofs alike, and no other key or context shares it *)
Fits(outs, by, ctx, out) == \A o \in outs : (o[1] = by /\ o[2] = ctx) <=> (o[3] = out)
(* one list of places, one root *)
FitsRoot(roots, ring, root) == \A x \in roots : (x[1] = Places(ring)) <=> (x[2] = root)
=============================================================================
