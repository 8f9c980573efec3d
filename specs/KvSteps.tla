------------------------------ MODULE KvSteps ------------------------------
(* Conformance: single steps of the real versioned store. Lines are states ([st]) or steps ([n, op, res, p]). *)
EXTENDS Kv, Json, IOUtils, TLC
VARIABLES i, ph
Raw == ndJsonDeserialize(IOEnv.TRACE)
IsSt(x) == "st" \in DOMAIN x
S0 == SelectSeq(Raw, IsSt)
T0 == SelectSeq(Raw, LAMBDA x : ~IsSt(x))
Load(q) == [q EXCEPT !.idx = ToSet0(@), !.rv = ToSet0(@), !.ls = ToSet0(@), !.lk = ToSet0(@), !.w = ToSet0(@)]
St(n) == Load(S0[n].st)
\* a lease's keys are only visible while the lease is there and the leader has rebuilt the map
Norm(s) == [s EXCEPT !.lk = IF s.lead /\ s.built THEN {p \in @ : HasLease(s, p[1])} ELSE {}]
Res(r) == [r EXCEPT !.ks = ToSet0(@), !.fired = ToSet0(@)]
\* after a refusal only the kind of error counts
SameRes(a, b) == IF b.e # "ok" THEN a.e = b.e ELSE a = b
Check(e) ==
  LET s == St(e.n)  u == Norm(St(e.p))  r == Res(e.res)  O == Outcome(s, e.op) IN
  IF r.e = "noreply" THEN "noreply"
  ELSE IF ~\E o \in O : SameRes(r, o.r) THEN (IF ~\E o \in O : r.e = o.r.e THEN "error" ELSE IF ~\E o \in O : r.fired = o.r.fired THEN "events" ELSE "result")
  ELSE IF ~\E o \in O : SameRes(r, o.r) /\ Norm(o.s) = u THEN "state" ELSE ""
Init == i \in DOMAIN T0 /\ ph = 0
Bad(e, c) == PrintT(<<"BAD", "kv-" \o e.op.o \o ":" \o c, i, "op", e.op, "before", St(e.n), "result", e.res, "after", St(e.p), "spec", Outcome(St(e.n), e.op)>>)
Next == /\ ph = 0 /\ ph' = 1 /\ i' = i
        /\ LET c == Check(T0[i]) IN IF c = "" THEN TRUE ELSE Bad(T0[i], c)
=============================================================================
