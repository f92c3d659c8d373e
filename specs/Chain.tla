-------------------------------- MODULE Chain --------------------------------
(* The whole block transition: which blocks are imported and what state results. *)
EXTENDS Ledger

Rep1(st, b) == AfterDisputes(st.reports, b.disputes)
Rep2(st, b) == AfterAssurances(b, Rep1(st, b))
Avail(st, b) == Available(b, Rep1(st, b))
RingNow(st, b) == IF Changed(st, b.slot) THEN b.ringx ELSE st.safrole.ring

(* Each rule family by name, so that a verdict can be explained and checked on its own. *)
RuleHeader(st, b) == HeaderGuard(st, b, NewOffenders(b.disputes), AllOffenders(st, b.disputes))
RuleDisputes(st, b) == DisputesGuard(st, b.disputes)
RuleTickets(st, b) == TicketsGuard(st, b, RingNow(st, b))
RuleAssurances(st, b) == AssurancesGuard(st, b, Rep1(st, b))
RuleGuarantees(st, b) == GuaranteesGuard(st, b, WithParentRoot(st.history, b.rootval), Rep2(st, b), EtaHist(st, b.slot), AllOffenders(st, b.disputes))
RulePreimages(st, b) == PreimagesGuard(Elems(st.want), b)
RuleNames == <<"header", "disputes", "tickets", "assurances", "guarantees", "preimages">>
Rule(r, st, b) ==
  CASE r = "header" -> RuleHeader(st, b)
    [] r = "disputes" -> RuleDisputes(st, b)
    [] r = "tickets" -> RuleTickets(st, b)
    [] r = "assurances" -> RuleAssurances(st, b)
    [] r = "guarantees" -> RuleGuarantees(st, b)
    [] r = "preimages" -> RulePreimages(st, b)
Acceptable(st, b) == \A i \in 1..6 : Rule(RuleNames[i], st, b)

Star(st, b) == Accumulatable(st.accq, st.acch, Avail(st, b), b.slot)
Outs(st, acc) == SortBy(SetToSeq2({[s |-> o[1], se |-> Svc(st.svcs, o[1]).se, be |-> Svc(st.svcs, o[1]).be, h |-> o[2]] : o \in acc.out}),
                        LAMBDA o : o.be \o o.h)
Provided(b, w) == \E i \in DOMAIN b.pre : b.pre[i].svc = w.svc /\ b.pre[i].h = w.h /\ b.pre[i].len = w.len

(* One component of the state after an accepted block. *)
NextOf(c, st, b) ==
  CASE c = "slot" -> b.slot
    [] c = "eta" -> NextEta(st, b)
    [] c = "staging" -> st.staging
    [] c = "active" -> NextActive(st, b.slot)
    [] c = "past" -> NextPast(st, b.slot)
    [] c = "safrole" -> NextSafrole(st, b, AllOffenders(st, b.disputes), b.ringx)
    [] c = "disputes" -> NextDisputes(st, b.disputes)
    [] c = "reports" -> AfterGuarantees(b, Rep2(st, b))
    [] c = "pool" -> NextPool(st.pool, st.queue, b)
    [] c = "queue" -> st.queue
    [] c = "priv" -> st.priv
    [] c = "accq" -> LET star == Star(st, b) acc == Accumulated(st.svcs, star)
                     IN NextAccQueue(st.accq, Waiting(Avail(st, b), st.acch), Pkgs(SubSeq(star, 1, acc.n)), st.slot, b.slot)
    [] c = "acch" -> LET star == Star(st, b) IN NextAccHistory(st.acch, star, Accumulated(st.svcs, star).n)
    [] c = "outputs" -> Map(Outs(st, Accumulated(st.svcs, Star(st, b))), LAMBDA o : [s |-> o.s, h |-> o.h, se |-> o.se])
    [] c = "history" -> NextHistory(st.history, b, b.rootval, Outs(st, Accumulated(st.svcs, Star(st, b))))
    [] c = "stats" -> LET star == Star(st, b) acc == Accumulated(st.svcs, star)
                      IN NextStats(st, b, Reporters(st, b, EtaHist(st, b.slot), AllOffenders(st, b.disputes)), Avail(st, b), SubSeq(star, 1, acc.n), acc.used)
    [] c = "want" -> Map(st.want, LAMBDA w : IF Provided(b, w) THEN [w EXCEPT !.at = <<b.slot>>] ELSE w)
=============================================================================
