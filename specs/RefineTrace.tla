---------------------------- MODULE RefineTrace ----------------------------
(* Recorded refinements and authorizations against the specified ones. *)
EXTENDS Refine, Json, IOUtils
Burst == 100
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w
vars == <<l, w>>
Ev == Trace[l]
Idle == [ph |-> "idle"]
Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE
Eq(name, exp, got) == Say(name, exp = got, exp, got)
FnOf(list) == [k \in {list[i][1] : i \in DOMAIN list} |-> list[CHOOSE i \in DOMAIN list : list[i][1] = k][2]]
AccountOf(a) == [a EXCEPT !.st = FnOf(a.st), !.pre = FnOf(a.pre), !.look = FnOf(a.look)]
AccountsOf(list) == LET f == FnOf(list) IN [id \in DOMAIN f |-> AccountOf(f[id])]

Env == [kind |-> Ev.kind, acc |-> AccountsOf(Ev.accounts), core |-> Ev.core, item |-> Ev.item, pkg |-> Ev.pkg, tr |-> Ev.tr, imports |-> Ev.imports,
        offset |-> Ev.offset, blobs |-> FnOf(Ev.blobs)]
Empty == [vm |-> <<>>, exports |-> <<>>]
\* odd: judged with the summaries written as the node is known to write them
Enter(odd) ==
  LET e == Env plan == Plan(e) IN
  IF plan.code.st # "ok" THEN [ph |-> "end", res |-> plan.code.st, out |-> "", used |-> "0", exports |-> <<>>, odd |-> odd, asked |-> FALSE]
  ELSE LET std == Standard(plan.code.bytes) IN
       IF ~std.ok THEN [ph |-> "end", res |-> "panic", out |-> "", used |-> "0", exports |-> <<>>, odd |-> odd, asked |-> FALSE]
       ELSE [ph |-> "run", p |-> std.p, m |-> Start(std, HexToSeq(plan.args), 0, ToInt(plan.gas)), x |-> Empty, e |-> e, limit |-> plan.gas, odd |-> odd, asked |-> FALSE]
Begin == w.ph = "idle" /\ l <= Len(Trace) /\ w' = Enter(FALSE) /\ UNCHANGED l

RECURSIVE Go(_, _, _)
Go(p, m, k) == IF k = 0 \/ m.st # "run" THEN m ELSE Go(p, Exec(p, m), k - 1)
Run == w.ph = "run" /\ w.m.st = "run" /\ w' = [w EXCEPT !.m = Go(w.p, w.m, Burst)] /\ UNCHANGED l

Answer ==
  /\ w.ph = "run" /\ w.m.st = "host"
  /\ LET a == Answer_(w.p, w.m, w.x, w.e, w.odd)
         asked == w.asked \/ (w.m.arg = 1 /\ w.m.regs[11] = W(11))
     IN w' = IF ~a.run THEN [w EXCEPT !.m = a.m, !.x = a.x, !.asked = asked]
             ELSE [w EXCEPT !.ph = "inner", !.m = a.m, !.x = a.x] @@ [inv |-> a.inv, n |-> a.inv.m]
  /\ UNCHANGED l
Inner ==
  /\ w.ph = "inner"
  /\ LET p == w.x.vm[w.inv.id].p n == Go(p, w.n, Burst) IN
     IF n.st = "run" THEN w' = [w EXCEPT !.n = n]
     ELSE LET b == Returned(w.m, w.x, w.inv, n, IF n.st = "host" THEN Number(p, n) ELSE Zero) IN
          w' = [k \in DOMAIN w \ {"inv", "n"} |-> CASE k = "ph" -> "run" [] k = "m" -> b.m [] k = "x" -> b.x [] OTHER -> w[k]]
  /\ UNCHANGED l

Stop_ ==
  /\ w.ph = "run" /\ w.m.st \notin {"run", "host"}
  /\ LET halt == w.m.st = "halt" IN
     w' = [ph |-> "end", res |-> IF halt THEN "ok" ELSE IF w.m.st = "oog" THEN "oog" ELSE "panic",
           out |-> IF halt /\ OutputReadable(w.m) THEN SeqToHex(Output(w.m)) ELSE "", used |-> BSub(w.limit, Max(0, w.m.gas)),
           exports |-> IF halt THEN w.x.exports ELSE <<>>, odd |-> w.odd, asked |-> w.asked]
  /\ UNCHANGED l

Outcome == [res |-> w.res, out |-> w.out, used |-> w.used, exports |-> w.exports]
End ==
  /\ w.ph = "end"
  /\ IF Outcome # Ev.out /\ w.asked /\ ~w.odd /\ KnownSummaries
     THEN w' = Enter(TRUE) /\ UNCHANGED l
     ELSE /\ Eq("result", w.res, Ev.out.res)
          /\ Eq("gas used", w.used, Ev.out.used)
          /\ Eq("output", w.out, Ev.out.out)
          /\ Eq("exports", w.exports, Ev.out.exports)
          /\ w.odd => PrintT(<<"KNOWN-FINDING", "item-summaries">>)
          /\ l' = l + 1 /\ w' = Idle

Init == l = 1 /\ w = Idle /\ TLCSet(1, 1)
Next == (Begin \/ Run \/ Answer \/ Inner \/ Stop_ \/ End) /\ TLCSet(1, l')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet(1) = Len(Trace) + 1 \/ (PrintT(<<"REJECTED-AT", TLCGet(1)>>) /\ FALSE)
=============================================================================
