------------------------------ MODULE PvmTrace ------------------------------
(* Recorded runs of the real machine against the specified one.  Each event carries a program, a starting machine and
   what the real machine ended with; the specified machine runs the program one instruction per step. *)
EXTENDS Pvm, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p, m
vars == <<l, p, m>>
Ev == Trace[l]
Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE
Eq(name, exp, got) == Say(name, exp = got, exp, got)
Idle == [st |-> "idle"]

CellsOf(list) == [c \in {<<list[k][1], list[k][2]>> : k \in DOMAIN list} |-> (CHOOSE k \in DOMAIN list : <<list[k][1], list[k][2]>> = c)]
MemOf(list) == LET f == CellsOf(list) IN [c \in DOMAIN f |-> list[f[c]][3]]
NonZero(mem) == {<<c[1], c[2], mem[c]>> : c \in {c \in DOMAIN mem : mem[c] # 0}}
Same(a, b) == a = b

RawStart(e) == [pc |-> e.pc, gas |-> e.gas, st |-> "run", arg |-> NoAddr, regs |-> e.regs, perms |-> e.perms, mem |-> MemOf(e.data), segs |-> <<>>,
                brk |-> [now |-> e.brk, limit |-> e.limit]]

(* the outside of the machine: host calls open to an authorizer *)
Host(mm, q) ==
  LET c == mm.arg
      back(v, g) == IF g < 0 THEN [mm EXCEPT !.gas = g, !.st = "oog"] ELSE [To(mm, q) EXCEPT !.gas = g, !.st = "run", !.arg = NoAddr, !.regs[8] = v]
      What == Sub(Zero, W(2))
  IN IF c = 0 THEN back(W(Max(0, mm.gas - 10)), mm.gas - 10) ELSE back(What, mm.gas - 10)

Begin ==
  /\ m.st = "idle"
  /\ l <= Len(Trace)
  /\ Ev.ev # "area"
  /\ IF Ev.ev = "raw"
     THEN LET q == Deblob(Ev.blob) IN
          IF q.ok THEN p' = q /\ m' = RawStart(Ev) /\ UNCHANGED l
          ELSE Eq("malformed", "invalid", Ev.out.exit) /\ l' = l + 1 /\ UNCHANGED <<p, m>>
     ELSE LET q == Standard(Ev.blob) IN
          IF q.ok THEN p' = q.p /\ m' = Start(q, Ev.args, Ev.pc, Ev.gas) /\ UNCHANGED l
          ELSE Eq("malformed", <<"panic", 0>>, <<Ev.out.exit, Ev.out.used>>) /\ l' = l + 1 /\ UNCHANGED <<p, m>>

(* calls on a memory itself *)
AreaOk(c, w) ==
  CASE c.op = "readable" -> Eq("readable", AreaCan(w, c.at, c.n, FALSE), c.out)
    [] c.op = "writable" -> Eq("writable", AreaCan(w, c.at, c.n, TRUE), c.out)
    [] c.op = "read" -> /\ Eq("read", AreaAccess(w, c.at, c.n, FALSE), <<c.out, c.page>>)
                        /\ c.out = "ok" => \A k \in AreaCuts(w, c.at, c.n) \cup {c.runs[j][1] : j \in DOMAIN c.runs} :
                             Eq("octet", AreaAt(w, k), LET j == CHOOSE j \in DOMAIN c.runs : c.runs[j][1] <= k /\ k < c.runs[j][1] + c.runs[j][2] IN c.runs[j][3])
    [] c.op = "write" -> Eq("write", AreaAccess(w, c.at, c.n, TRUE), <<c.out, c.page>>)
    [] OTHER -> Eq("given", TRUE, c.out)
RECURSIVE AreaRun(_, _, _)
AreaRun(cs, k, w) == IF k > Len(cs) THEN TRUE ELSE AreaOk(cs[k], w) /\ AreaRun(cs, k + 1, AreaNext(w, cs[k]))
Touch ==
  /\ m.st = "idle"
  /\ l <= Len(Trace)
  /\ Ev.ev = "area"
  /\ AreaRun(Ev.calls, 1, [first |-> Ev.first, end |-> Ev.end, perms |-> <<>>, fills |-> <<>>])
  /\ l' = l + 1 /\ UNCHANGED <<p, m>>

Run ==
  /\ m.st = "run"
  /\ m' = Exec(p, m)
  /\ UNCHANGED <<l, p>>

Answer ==
  /\ m.st = "host" /\ Ev.ev = "std"
  /\ m' = Host(m, p)
  /\ UNCHANGED <<l, p>>

End ==
  /\ m.st \in {"halt", "panic", "oog", "fault"} \/ (m.st = "host" /\ Ev.ev = "raw")
  /\ LET o == Ev.out IN
     IF Ev.ev = "raw"
     THEN /\ Eq("exit", m.st, o.exit)
          /\ Eq("gas", m.gas, o.gas)
          /\ Eq("registers", m.regs, o.regs)
          /\ Eq("memory", NonZero(m.mem), {o.mem[k] : k \in DOMAIN o.mem})
          /\ m.st = "fault" => Eq("fault page", m.arg, o.arg)
          /\ m.st = "host" => Eq("host call", IF m.arg \in (0..26) \cup {100} THEN m.arg ELSE 255, o.arg)
          /\ m.st \in {"oog", "host"} => Eq("pc", m.pc, o.pc)
     ELSE /\ Eq("exit", IF m.st = "fault" THEN "panic" ELSE m.st, o.exit)
          /\ Eq("gas used", Ev.gas - Max(0, m.gas), o.used)
          /\ m.st = "halt" => IF OutputReadable(m) THEN Eq("output", Output(m), o.output) ELSE Eq("no output", "none", o.output)
  /\ l' = l + 1 /\ m' = Idle /\ UNCHANGED p

Init == l = 1 /\ p = Invalid /\ m = Idle /\ TLCSet(1, 1)
Next == (Begin \/ Touch \/ Run \/ Answer \/ End) /\ TLCSet(1, l')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet(1) = Len(Trace) + 1 \/ (PrintT(<<"REJECTED-AT", TLCGet(1)>>) /\ FALSE)
=============================================================================
