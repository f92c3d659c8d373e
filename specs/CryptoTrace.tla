---------------------------- MODULE CryptoTrace ----------------------------
(* Replays recorded signing and checking against the ideal: what is accepted was made by whom it is credited to, over exactly that,
   and carries the one output of its key. *)
EXTENDS Crypto, Sequences, Integers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, made, outs, roots
vars == <<l, made, outs, roots>>
Ev == Trace[l]
Say(name, ok, exp, got) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, name, exp, got>>) /\ FALSE
Holds(name, ok) == Say(name, ok, TRUE, FALSE)
Init == l = 1 /\ made = {} /\ outs = {} /\ roots = {}

RingEv ==
  /\ Say("the ring has a root", Ev.root \notin {"no", "abort"}, "a root", Ev.root)
  /\ Holds("one list of keys, one root", FitsRoot(roots, Ev.ring, Ev.root))
  /\ roots' = roots \cup {<<Places(Ev.ring), Ev.root>>} /\ UNCHANGED <<made, outs>>

SignEv ==
  /\ Say("signing does not abort", Ev.res # "abort", "ok or no", Ev.res)
  /\ Say("a holder can sign", Genuine(Ev) => Ev.res = "ok", "ok", Ev.res)
  /\ Ev.kind # "ed" /\ Ev.res = "ok" => Holds("the output is the key's own", Fits(outs, Ev.by, Ev.ctx, Ev.out))
  /\ made' = IF Ev.res = "ok" THEN made \cup {[kind |-> Ev.kind, by |-> Ev.by, ring |-> Ev.ring, at |-> Ev.at, ctx |-> Ev.ctx, msg |-> Ev.msg, sig |-> Ev.sig, out |-> Ev.out]} ELSE made
  /\ outs' = IF Ev.kind # "ed" /\ Ev.res = "ok" THEN outs \cup {<<Ev.by, Ev.ctx, Ev.out>>} ELSE outs
  /\ UNCHANGED roots

VerifyEv ==
  LET who == {m \in made : Answers(m, Ev)} exact == \E m \in who : m.sig = Ev.sig IN
  /\ Say("checking does not abort", Ev.res # "abort" /\ Ev.read # "abort", "ok or no", <<Ev.res, Ev.read>>)
  /\ exact => Say("a genuine signature is accepted", Ev.res = "ok", "ok", Ev.res)
  /\ Ev.res = "ok" =>
       /\ Say("accepted only if made", who # {}, <<"refused", Ev.how>>, "accepted")
       /\ Ev.kind # "ed" => /\ Say("the one output of the key", \E m \in who : m.out = Ev.out, {m.out : m \in who}, <<Ev.how, Ev.out>>)
                            /\ Say("as read off the signature", Ev.read = Ev.out, Ev.out, Ev.read)
  /\ UNCHANGED <<made, outs, roots>>

Step == /\ l <= Len(Trace)
        /\ CASE Ev.ev = "ring" -> RingEv [] Ev.ev = "sign" -> SignEv [] Ev.ev = "verify" -> VerifyEv
        /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
