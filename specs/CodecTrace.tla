------------------------------ MODULE CodecTrace ------------------------------
(* What the real decoders and encoders made of octets, against the layouts. *)
EXTENDS Codec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, Ev.t, name, exp, got>>) /\ FALSE
Eq(name, exp, got) == Say(name, exp = got, exp, got)
(* room a decoder may take: in proportion to its input, plus what a value of fixed size needs *)
Room(len) == 1024 * len + 200000
Fits(r) == r.odd \/ (r.ok = Ev.ok /\ (r.ok => r.n = Ev.n /\ r.s = Ev.v /\ (Ev.writes => HexSub(Ev.h, 0, r.n) = Ev.re)))
\* exactly what the known finding describes, where that differs from what is right
Known(r) == /\ Ev.t \in DOMAIN KnownLayouts
            /\ ~Fits(r)
            /\ LET k == Read(KnownLayouts[Ev.t], Ev.h, 0) IN <<k.ok, k.n, k.s>> # <<r.ok, r.n, r.s>> /\ Fits(k)
Step ==
  LET r == Read(Layouts[Ev.t], Ev.h, 0) IN
  /\ Say("crash", ~Ev.crash, "a value or an error", "abort")
  /\ Say("room", Ev.room <= Room(HexLen(Ev.h)), Room(HexLen(Ev.h)), Ev.room)
  /\ IF ~(Ev.ok /\ Ev.writes) THEN TRUE ELSE Say("read back", Ev.back, "the same value", "another")
  /\ IF r.odd THEN TRUE ELSE IF Known(r) THEN PrintT(<<"KNOWN-FINDING", "protocol-octets">>) ELSE
     /\ Eq("readable", r.ok, Ev.ok)
     /\ IF ~r.ok THEN TRUE ELSE
             /\ Eq("octets read", r.n, Ev.n)
                /\ Eq("value", r.s, Ev.v)
                /\ IF ~Ev.writes THEN TRUE ELSE Eq("written", HexSub(Ev.h, 0, r.n), Ev.re)
Init == l = 1
Next == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
