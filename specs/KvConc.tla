------------------------------- MODULE KvConc -------------------------------
(* Conformance: two requests of the real versioned store at the same time. What is stored, who was told what about it and which
   watches fired must be as in one of the two orders. Answers read before the write is ordered (previous pairs, counts) may be
   those of the moment of the request. *)
EXTENDS KvSteps
\* a write whose request was checked before the other one took effect
Late(s0, s, o) ==
  IF o.o = "put" /\ \E x \in Outcome(s0, o) : x.r.e = "ok"
  THEN LET a == PutApply([s EXCEPT !.rev = @ + 1], o.k, o.v, IF o.il THEN 0 ELSE o.l, o.il, o.iv, <<s.rev + 1, 1>>)
       IN IF a.ok THEN {[s |-> a.s, r |-> [NoRes EXCEPT !.rev = s.rev + 1, !.fired = a.fired]]} ELSE {Err(s, "le")}
  ELSE {}
\* what the other request is about to take away is left to it: a key being deleted has left its lease, a lease being revoked is not revoked again
Apart(s, f, g) ==
  IF f.o \in {"task", "revoke"} /\ g.o = "del" THEN Outcome([s EXCEPT !.lk = {p \in @ : p[2] # g.k}], f)
  ELSE IF f.o = "task" /\ g.o = "revoke" /\ s.built
  THEN LET l == {x \in s.ls : x.id = g.id} k == {p \in s.lk : p[1] = g.id} IN {[x EXCEPT !.s.ls = @ \cup l, !.s.lk = @ \cup k] : x \in Outcome([s EXCEPT !.ls = @ \ l, !.lk = @ \ k], f)}
  ELSE {}
Two(s, f, g) == UNION {{[s |-> y.s, f |-> x.r, g |-> y.r, fired |-> x.r.fired \cup y.r.fired] : y \in Outcome(x.s, g) \cup Late(s, x.s, g)} : x \in Outcome(s, f) \cup Apart(s, f, g)}
Loose(op, a, b) ==  \* a: recorded
  IF b.e # "ok" THEN a.e = b.e \/ (op.o = "put" /\ b.e = "le" /\ a.e = "bad") \/ (op.o = "put" /\ op.il /\ b.e = "bad" /\ a.e = "le")   \* found out when applied
  ELSE IF op.o = "put" THEN a.e = "ok" /\ a.rev = b.rev
  ELSE IF op.o = "del" THEN a.e = "ok"
  ELSE [a EXCEPT !.fired = {}] = [b EXCEPT !.fired = {}]
\* a write that did nothing when applied may have used up a revision
Idle(op, a, b) == op.o \in {"put", "del"} /\ (a.e # "ok" \/ (op.o = "del" /\ b.n = 0 /\ a.n # 0))
Plain(s) == [s EXCEPT !.lk = {}, !.pnl = 0, !.rev = 0, !.w = {[x EXCEPT !.r0 = 0] : x \in @}]
Same(u, s, idle) == Plain(u) = Plain(s) /\ (u.rev = s.rev \/ (idle /\ u.rev = s.rev + 1))
\* a watch that finds nothing may already have been told by the other request
Waits(e) == IF e.b.o = "watch" THEN {x \in Two(St(e.n), [e.b EXCEPT !.wt = TRUE], e.a) : \E y \in x.fired : y.id = e.b.id} ELSE {}
All(s, e) == {[s |-> x.s, ra |-> x.g, rb |-> x.f, fired |-> x.fired] : x \in Waits(e)} \cup {[s |-> x.s, ra |-> x.f, rb |-> x.g, fired |-> x.fired] : x \in Two(s, e.a, e.b)} \cup {[s |-> x.s, ra |-> x.g, rb |-> x.f, fired |-> x.fired] : x \in Two(s, e.b, e.a)}
\* a key with a lease will go with it
Orphans(s) == {k \in LiveKeys(s) : Kv(s, k).l # 0 /\ (~HasLease(s, Kv(s, k).l) \/ (s.built /\ <<Kv(s, k).l, k>> \notin s.lk))}
CheckC(e) ==
  LET s == St(e.n)  u == Norm(St(e.p))  ra == Res(e.ra)  rb == Res(e.rb)  F == ToSet0(e.fired)
      A == {o \in All(s, e) : Loose(e.a, ra, o.ra) /\ Loose(e.b, rb, o.rb)}
      B == {o \in A : Same(u, Norm(o.s), Idle(e.a, ra, o.ra) \/ Idle(e.b, rb, o.rb))}
  IN IF Orphans(u) \ Orphans(s) # {} THEN "orphan"
     ELSE IF e.disk < Max2(s.pnl, Max2(IF e.a.o = "grant" /\ e.a.id = 0 THEN ra.id ELSE 0, IF e.b.o = "grant" /\ e.b.id = 0 THEN rb.id ELSE 0)) THEN "reissue"   \* an id handed out is on disk
     ELSE IF A = {} THEN "answers" ELSE IF B = {} THEN "state" ELSE IF ~\E o \in B : o.fired = F THEN "events" ELSE ""
BadC(e, c) == PrintT(<<"BAD", "kvconc-" \o e.a.o \o "-" \o e.b.o \o ":" \o c, i, "a", e.a, "b", e.b, "ra", e.ra, "rb", e.rb, "fired", e.fired, "before", St(e.n), "after", St(e.p), "spec", All(St(e.n), e)>>)
NextC == /\ ph = 0 /\ ph' = 1 /\ i' = i
         /\ LET c == CheckC(T0[i]) IN IF c = "" THEN TRUE ELSE BadC(T0[i], c)
=============================================================================
