------------------------------ MODULE LatchSeq ------------------------------
(* Conformance: histories of whole Acquire / Release calls made on the real latches, as a prefix tree of calls and results. *)
EXTENDS Latch, IOUtils, Json
VARIABLE n
T == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE RunAcq(_, _), RunRel(_, _)
RunAcq(t, c) == IF t.c[c].ph # "acq" THEN t ELSE IF t.c[c].i > Len(t.c[c].ks) THEN AcqDone(t, c) ELSE RunAcq(AcqStep(t, c), c)
RunRel(t, c) == IF t.c[c].i > Len(t.c[c].ks) THEN t ELSE RunRel(RelStep(t, c), c)
SetOf(x) == {x[i] : i \in DOMAIN x}
\* release of c that hands the keys ks over to client d (not yet queueing), which then holds them at once
RECURSIVE Hand(_, _, _, _)
Hand(t, d, ks, j) == IF j > Len(ks) THEN t ELSE Hand([t EXCEPT !.q[ks[j]] = <<d>> \o @], d, ks, j + 1)
Outcome(t, op) ==
  CASE op.o = "acq" -> LET u == RunAcq(Begin(t, op.c, op.k), op.c) IN [s |-> u, r |-> [ok |-> u.c[op.c].ph = "hold", w |-> {}]]
    [] op.o = "try" -> LET u == RunAcq(Resume(t, op.c), op.c) IN [s |-> u, r |-> [ok |-> u.c[op.c].ph = "hold", w |-> {}]]
    [] op.o = "rel" -> LET u == RunRel(RelBegin(t, op.c), op.c) IN
         [s |-> RelDone(u, op.c), r |-> [ok |-> TRUE, w |-> SetOf(u.c[op.c].wl)]]
    [] op.o = "keep" -> LET b == RunRel(RelBegin(t, op.c), op.c)
                            kept == SetOf(op.k)
                            wl == SelectSeq([i \in 1..Len(b.c[op.c].ks) |->
                                     LET k == b.c[op.c].ks[i] IN IF k \in kept \/ b.q[k] = <<>> THEN 0 ELSE Head(b.q[k])], LAMBDA x : x # 0)
                            u == RelDone([b EXCEPT !.c[op.c].wl = wl], op.c)
                            h == Hand(u, op.d, op.k, 1) IN
         [s |-> [h EXCEPT !.c[op.d] = [ZeroClient EXCEPT !.ph = "hold", !.ks = op.k, !.own = Len(op.k)]],
          r |-> [ok |-> TRUE, w |-> SetOf(wl)]]
SInit == s = Empty /\ n = 1
SNext == \E i \in DOMAIN T[n].ch :
  LET j == T[n].ch[i]  e == T[j]  o == Outcome(s, e.op) IN
    IF o.r.ok = e.res.ok /\ o.r.w = SetOf(e.res.w) THEN n' = j /\ s' = o.s
    ELSE PrintT(<<"BAD", "latch-call:" \o e.op.o, j, e, "allowed", o.r, s>>) /\ FALSE
=============================================================================
