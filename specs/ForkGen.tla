-------------------------------- MODULE ForkGen --------------------------------
(* Session behaviours over symbolic blocks (numbers in order of making, 0 the initial header) for replay into the real
   conformance target. `good` is an intention: the driver learns from a fresh node whether a block is valid. *)
EXTENDS ForkSession, Integers, Json, IOUtils, Emit, TLC
CONSTANTS Depth, MaxBlocks
VARIABLES s, made, log, n   \* made: sequence of [p, good]
vars == <<s, made, log, n>>
Op(o, b, p, g) == [op |-> o, b |-> b, p |-> p, good |-> g]
Ids == 0..Len(made)
Good(b) == b > 0 /\ made[b].good
Kids == IF Len(made) >= MaxBlocks THEN {}
        ELSE {Op("child", Len(made) + 1, p, g) : p \in {x \in Ids : x = 0 \/ Good(x)}, g \in {TRUE, FALSE}}
Live == {o \in Kids : o.p \in Known(s)}
Stg == {o \in Kids : o.p \in s.staged}
Lost == {o \in Kids : o.p > 0 /\ o.p \notin Known(s) /\ made[o.p].p \in Ids /\ \E x \in 1..Len(made) : x # o.p /\ made[x].p = made[o.p].p}
Again == {Op("again", b, made[b].p, Good(b)) : b \in 1..Len(made)}
Gets == {Op("get", b, 0, TRUE) : b \in Known(s)}
AnyGet == {Op("get", b, 0, TRUE) : b \in Ids \cup {-1}}
Odds == {Op(o, 0, 0, TRUE) : o \in {"second-open", "peer-again", "state-root", "state", "error", "garbage", "hangup"}}
Ops == IF s.phase = "none" THEN IF RandomElement(1..8) = 1 THEN {Op(o, 0, 0, TRUE) : o \in {"early-get", "state-root", "garbage"}} \cup Again
                                ELSE {Op("hello", 0, 0, RandomElement(1..6) > 1)}
       ELSE IF s.phase = "shaken" THEN IF RandomElement(1..6) = 1 THEN Again \cup AnyGet \cup Odds ELSE {Op("open", 0, 0, TRUE)}
       ELSE LET d == RandomElement(1..100) IN
            IF d <= 38 /\ Live # {} THEN {RandomElement(Live)}
            ELSE IF d <= 54 /\ Stg # {} THEN {RandomElement(Stg)}
            ELSE IF d <= 62 /\ Lost # {} THEN {RandomElement(Lost)}   \* on a block that was dropped for a sibling, or on the head's forebears
            ELSE IF d <= 65 /\ Kids # {} THEN {RandomElement(Kids)}
            ELSE IF d <= 78 /\ Again # {} THEN Again
            ELSE IF d <= 92 THEN Gets ELSE IF d <= 97 THEN AnyGet ELSE Odds
Do(o) ==
  /\ made' = IF o.op = "child" THEN Append(made, [p |-> o.p, good |-> o.good]) ELSE made
  /\ s' = CASE o.op = "hello" -> Shaken(o.good)
            [] o.op = "open" -> Opened(s, 0)
            [] o.op \in {"child", "again"} -> IF s.phase = "none" THEN None ELSE AfterImport(s, o.b, o.p, o.good)
            [] o.op = "get" -> s
            [] OTHER -> None
  /\ log' = Append(log, o) /\ n' = n + 1
Init == s = [None EXCEPT !.staged = {}] /\ made = <<>> /\ log = <<>> /\ n = 0
GenNext == n < Depth /\ LET o == RandomElement(Ops) IN Do(o)
Spec == Init /\ [][GenNext]_vars
Done == n = Depth => EmitOnce(IOEnv.GEN_OUT, ToJson(log))
=============================================================================
