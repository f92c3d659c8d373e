------------------------------ MODULE AccTrace ------------------------------
(* Recorded accumulations against the specified one: the specified machine runs every service's program, instruction by instruction, answers its
   calls, merges each round, and the outcome is compared with what the real node stored. *)
EXTENDS Accumulate, Json, IOUtils
Burst == 100
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, w
vars == <<l, s, w>>
(* s: the block so far; w: the service running *)
Ev == Trace[l]
Idle == [ph |-> "idle"]

FnOf(list) == [k \in {list[i][1] : i \in DOMAIN list} |-> list[CHOOSE i \in DOMAIN list : list[i][1] = k][2]]
AccountOf(a) == [a EXCEPT !.st = FnOf(a.st), !.pre = FnOf(a.pre), !.look = FnOf(a.look)]
AccountsOf(list) == LET f == FnOf(list) IN [id \in DOMAIN f |-> AccountOf(f[id])]

Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE
Eq(name, exp, got) == Say(name, exp = got, exp, got)
EqSet(name, exp, got) == Say(name, exp = got, exp \ got, got \ exp)

(* what is stored once the recorded changes are made *)
Changed(pre, d) == LET ks == {z[1] : z \in d} IN {z \in pre : z[1] \notin ks} \cup {z \in d : z[2] # "gone"}
Wealth(acc) == SumOf([id \in DOMAIN acc |-> acc[id].bal])
Pending(xfers) == SumOn(MapOn(xfers, LAMBDA t : t.amount))

Begin ==
  /\ s.ph = "idle" /\ l <= Len(Trace)
  /\ LET b == [acc |-> AccountsOf(Ev.accounts), man |-> Ev.priv.man, asg |-> Ev.priv.asg, des |-> Ev.priv.des, reg |-> Ev.priv.reg,
               always |-> FnOf(Ev.priv.always), queue |-> Ev.queue, staging |-> Ev.staging] IN
     s' = [ph |-> "round", b |-> b, i |-> 0, gas |-> GasLimit(b), xfers |-> <<>>, calls |-> b.always, outs |-> {}, used |-> <<>>, err |-> FALSE]
  /\ UNCHANGED <<l, w>>

Round ==
  /\ s.ph = "round"
  /\ LET rest == SubSeq(Ev.reports, s.i + 1, Len(Ev.reports)) n == Fit(rest, s.gas) IN
     IF n = 0 /\ s.xfers = <<>> /\ DOMAIN s.calls = {} THEN s' = [s EXCEPT !.ph = "end"]
     ELSE LET now == SubSeq(rest, 1, n) hs == Hosts(s.b, now, s.xfers, s.calls) IN
          s' = [ph |-> "next", b |-> s.b, i |-> s.i + n, gas |-> s.gas, xfers |-> s.xfers, calls |-> s.calls, outs |-> s.outs, used |-> s.used, err |-> FALSE,
                now |-> now, met |-> Metered(now, s.xfers, s.calls), todo |-> SortIds(hs), rs |-> <<>>]
  /\ UNCHANGED <<l, w>>

Finish(host, x, yield, used) == [s EXCEPT !.rs = Append(@, [host |-> host, x |-> x, yield |-> yield, used |-> used]), !.todo = Tail(@)]

Pick ==
  /\ s.ph = "next" /\ s.todo # <<>> /\ w = Idle
  /\ LET host == Head(s.todo)
         x == Fresh(s.b, host, s.xfers, Ev.eta, Ev.slot)
         prog == ProgramOf(x.acc[host])
         gas == GasOf(s.now, s.xfers, s.calls, host)
         ins == Inputs(s.now, s.xfers, host)
     IN IF ~prog.ok THEN s' = Finish(host, x, "", "0") /\ UNCHANGED w
        ELSE LET std == Standard(prog.bytes) IN
             IF ~std.ok THEN s' = Finish(host, x, "", "0") /\ UNCHANGED w
             ELSE /\ w' = [ph |-> "run", p |-> std.p, m |-> Start(std, Arguments(Ev.slot, host, Len(ins)), 5, ToInt(gas)), x |-> x, y |-> x,
                           e |-> [host |-> host, slot |-> Ev.slot, eta |-> Ev.eta, inputs |-> ins], limit |-> gas]
                  /\ UNCHANGED s
  /\ UNCHANGED l

RECURSIVE Go(_, _, _)
Go(p, m, k) == IF k = 0 \/ m.st # "run" THEN m ELSE Go(p, Exec(p, m), k - 1)
Run ==
  /\ w.ph = "run" /\ w.m.st = "run"
  /\ w' = [w EXCEPT !.m = Go(w.p, w.m, Burst)]
  /\ UNCHANGED <<l, s>>

Answer ==
  /\ w.ph = "run" /\ w.m.st = "host"
  /\ LET a == HostCall(w.p, w.m, w.x, w.y, w.e) IN
     /\ w' = [w EXCEPT !.m = a.m, !.x = a.x, !.y = a.y]
     \* what no call may do: make money, or leave the caller below what its storage needs unless it was there already
     /\ Say("conserve", BLE(BAdd(Wealth(a.x.acc), Pending(a.x.xfers)), BAdd(Wealth(w.x.acc), Pending(w.x.xfers))), w.m.arg, w.e.host)
     /\ Say("threshold", LET me == a.x.acc[w.e.host] old == w.x.acc[w.e.host] IN
                         BLE(Threshold(me), me.bal) \/ BLE(old.bal, me.bal) \/ me.bal = old.bal, w.m.arg, w.e.host)
     /\ Say("foreign", \A id \in DOMAIN a.x.acc \cap DOMAIN w.x.acc : id = w.e.host \/ a.x.acc[id] = w.x.acc[id], w.m.arg, w.e.host)
     /\ Say("footprint", LET me == a.x.acc[w.e.host] IN Stored(me) = [items |-> me.items, octets |-> me.octets], w.m.arg, w.e.host)
  /\ UNCHANGED <<l, s>>

Stop_ ==
  /\ w.ph = "run" /\ w.m.st \notin {"run", "host"}
  /\ LET used == BSub(w.limit, Max(0, w.m.gas))
         c == IF w.m.st = "halt" THEN w.x ELSE w.y
         y == IF w.m.st = "halt" /\ OutputReadable(w.m) /\ NatW(w.m.regs[9]) = 32 THEN SeqToHex(Output(w.m)) ELSE c.yield
     IN s' = Finish(w.e.host, c, y, used)
  /\ w' = Idle
  /\ UNCHANGED l

MergeRound ==
  /\ s.ph = "next" /\ s.todo = <<>>
  /\ LET met == SelectSeq(s.rs, LAMBDA r : r.host \in s.met)
         used == SumOn(MapOn(met, LAMBDA r : r.used))
         after == Merge(s.b, s.rs, s.met, Ev.slot)
         count(h) == SumOn(MapOn(SelectSeq(met, LAMBDA r : r.host = h), LAMBDA r : r.used))
         hs == DOMAIN s.used \cup {r.host : r \in Image(met)}
         xs == Flat(MapOn(met, LAMBDA r : r.x.xfers))
     IN IF Clash(s.b, s.rs) THEN s' = [ph |-> "end", err |-> TRUE]
        ELSE s' = [ph |-> "round", b |-> after, i |-> s.i, gas |-> Sat(BAdd(s.gas, SumOn(MapOn(s.xfers, LAMBDA t : t.gas))), used), xfers |-> xs, calls |-> <<>>,
                   outs |-> s.outs \cup {<<r.host, r.yield>> : r \in {r \in Image(met) : r.yield # ""}},
                   used |-> [h \in hs |-> BAdd(count(h), IF h \in DOMAIN s.used THEN s.used[h] ELSE "0")], err |-> FALSE]
  /\ UNCHANGED <<l, w>>

End ==
  /\ s.ph = "end"
  /\ IF s.err THEN Eq("res", "err", Ev.out.res)
     ELSE LET o == Ev.out
              done == SubSeq(Ev.reports, 1, s.i)
              digs(h) == Len(SelectSeq(DigestsOf(done), LAMBDA d : d.svc = h))
              who == {h \in DOMAIN s.used \cup {d.svc : d \in Image(DigestsOf(done))} : digs(h) > 0 \/ (h \in DOMAIN s.used /\ s.used[h] # "0")}
              acc == [id \in DOMAIN s.b.acc |-> IF id \in who THEN [s.b.acc[id] EXCEPT !.last = ToStr(Ev.slot)] ELSE s.b.acc[id]]
          IN /\ Eq("res", "ok", o.res)
             /\ Eq("count", s.i, o.n)
             /\ EqSet("stats", {<<h, IF h \in DOMAIN s.used THEN s.used[h] ELSE "0", digs(h)>> : h \in who}, Image(o.stats))
             /\ EqSet("outputs", s.outs, Image(o.outputs))
             /\ EqSet("state", Raw(acc), Changed(Raw(AccountsOf(Ev.accounts)), Image(o.delta)))
             /\ Eq("privileges", [man |-> s.b.man, asg |-> s.b.asg, des |-> s.b.des, reg |-> s.b.reg], [man |-> o.priv.man, asg |-> o.priv.asg, des |-> o.priv.des, reg |-> o.priv.reg])
             /\ EqSet("always", {<<h, s.b.always[h]>> : h \in DOMAIN s.b.always}, Image(o.priv.always))
             /\ Eq("queue", s.b.queue, o.queue)
             /\ Eq("staging", s.b.staging, o.staging)
  /\ l' = l + 1 /\ s' = Idle /\ UNCHANGED w

Init == l = 1 /\ s = Idle /\ w = Idle /\ TLCSet(1, 1)
Next == (Begin \/ Round \/ Pick \/ Run \/ Answer \/ Stop_ \/ MergeRound \/ End) /\ TLCSet(1, l')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet(1) = Len(Trace) + 1 \/ (PrintT(<<"REJECTED-AT", TLCGet(1)>>) /\ FALSE)
=============================================================================
