------------------------------ MODULE MetaRep ------------------------------
(* The replicated state of the coordinator: what one log entry (a set of changes a leader decided on) makes of it. Applying is a
   function of state and entry, so replicas that apply the same log agree, whatever crashes and snapshots they went through.
   A section is a set of records with an id. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
RetryMax == 1      \* the driver sets FLAGS_task_retry_count and FLAGS_task_error_count to these
ErrMax == 2
Has(S, id) == \E x \in S : x.id = id
Get(S, id) == CHOOSE x \in S : x.id = id
Put(S, r) == {x \in S : x.id # r.id} \cup {r}
Del(S, id) == {x \in S : x.id # id}
Fold(S, l, F(_, _)) == FoldLeft(F, S, l)
Without(l, T) == SelectSeq(l, LAMBDA x : x \notin T)
Rng(l) == {l[k] : k \in DOMAIN l}

Eps(S, l) == Fold(S, l, LAMBDA a, e : IF e.o = "D" THEN Del(a, e.id) ELSE IF Has(a, e.id) /\ Get(a, e.id).v >= e.v THEN a ELSE Put(a, [id |-> e.id, v |-> e.v]))
Plain(S, l) == Fold(S, l, LAMBDA a, e : LET b == {x \in a : ~(x.k = e.k /\ x.id = e.id)} IN IF e.o = "D" THEN b ELSE b \cup {e.p})

(* Tenants: safe points only move forward; an update without one renames. *)
Named(t, p) == [t EXCEPT !.nm = p.nm, !.ut = p.ut]
Tenant(t, p, n) ==
  LET a == IF p.sp > 0 THEN (IF p.sp <= t.sp THEN t ELSE [t EXCEPT !.sp = p.sp, !.ut = p.ut]) ELSE Named(t, p)
  IN IF p.rl > 0 THEN IF p.rl < t.rl \/ (p.rl = t.rl /\ a.sp <= t.sp) THEN t ELSE [a EXCEPT !.rl = p.rl, !.ut = p.ut, !.rv = n] ELSE [Named(a, p) EXCEPT !.rv = n]
Tenants(S, l, n) == Fold(S, l, LAMBDA a, e : CASE e.o = "C" -> Put(a, [e.p EXCEPT !.rv = n]) [] e.o = "D" -> Del(a, e.id) [] OTHER -> IF Has(a, e.id) THEN Put(a, Tenant(Get(a, e.id), e.p, n)) ELSE a)
Schemas(S, l, n) == Fold(S, l, LAMBDA a, e : IF e.o = "D" THEN Del(a, e.id) ELSE Put(a, [e.p EXCEPT !.rv = n]))

(* Regions: an update with an older epoch, or one that moves the start without a newer epoch, is late and ignored. *)
Regions(S, l, n) ==
  LET Ok(e) == e.o = "C" \/ (e.o = "U" /\ Has(S, e.id) /\ LET o == Get(S, e.id) IN e.p.v >= o.v /\ ~(e.p.s # o.s /\ e.p.v = o.v))
      w == Fold(S, SelectSeq(l, LAMBDA e : e.o # "D" /\ Ok(e)), LAMBDA a, e : Put(a, [e.p EXCEPT !.rv = n]))
  IN {x \in w : ~(\E k \in DOMAIN l : l[k].o = "D" /\ l[k].id = x.id /\ Has(S, x.id))}
TabIdx(S, l, n) == Fold(S, l, LAMBDA a, e :
  CASE e.o = "C" -> Put(a, [e.p EXCEPT !.rv = n, !.ids = Rng(e.p.ids)])
    [] e.o = "D" -> Del(a, e.id)
    [] ~Has(a, e.id) -> a
    [] e.add = <<>> /\ e.del = <<>> -> Put(a, [e.p EXCEPT !.rv = n, !.ids = Rng(e.p.ids)])
    [] OTHER -> Put(a, [Get(a, e.id) EXCEPT !.ids = (@ \cup Rng(e.add)) \ Rng(e.del)]))

(* Tables and indexes: creating and dropping one keeps the list of its schema. *)
Tables(S, l, n) == Fold(S, l, LAMBDA a, e :
  CASE e.o = "C" -> Put(a, [e.p EXCEPT !.rv = n])
    [] e.o = "D" -> Del(a, e.id)
    [] OTHER -> IF Has(a, e.id) THEN Put(a, [Get(a, e.id) EXCEPT !.nm = e.p.nm, !.dd = e.p.dd, !.rv = n]) ELSE a)
Lists(S, l, f) == Fold(S, l, LAMBDA a, e :
  IF ~Has(a, e.p.sc) \/ e.o = "U" THEN a
  ELSE Put(a, [Get(a, e.p.sc) EXCEPT ![f] = IF e.o = "C" THEN (IF e.id \in Rng(@) THEN @ ELSE Append(@, e.id)) ELSE Without(@, {e.id})]))

(* Commands queued per store. *)
Ops(S, l) == Fold(S, l, LAMBDA a, e :
  LET old(i) == IF Has(a, i) THEN Get(a, i) ELSE [id |-> i, c |-> <<>>] IN
  CASE e.o = "C" -> Put(a, [old(e.id) EXCEPT !.c = @ \o e.c])
    [] e.o = "D" -> Put(a, [old(e.id) EXCEPT !.c = Without(@, Rng(e.c))])
    [] e.o = "M" /\ Has(a, e.f) /\ Has(a, e.t) -> Put(Put(a, [Get(a, e.f) EXCEPT !.c = Without(@, {e.mc})]), [Get(a, e.t) EXCEPT !.c = Append(@, e.mc)])
    [] OTHER -> a)
Moved(S, so, l) == Fold(S, l, LAMBDA a, e : IF e.o = "M" /\ Has(so, e.f) /\ Has(so, e.t) /\ Has(a, e.mc) THEN Put(a, [Get(a, e.mc) EXCEPT !.st = e.t]) ELSE a)
Cmds(S, l) == Fold(S, l, LAMBDA a, e : CASE e.o = "C" -> Put(a, e.p) [] e.o = "D" -> Del(a, e.id) [] OTHER -> IF Has(a, e.id) THEN Put(a, e.p) ELSE a)
CmdError(j, cid, er) == [j EXCEPT !.tk = [t \in DOMAIN @ |-> [o \in DOMAIN @[t] |-> [@[t][o] EXCEPT !.c = [k \in DOMAIN @ |-> IF @[k].id = cid THEN [@[k] EXCEPT !.er = er] ELSE @[k]]]]]]
Errors(S, l) == Fold(S, l, LAMBDA a, e : IF e.o = "C" \/ e.p.jb = 0 \/ ~Has(a, e.p.jb) THEN a ELSE Put(a, CmdError(Get(a, e.p.jb), e.id, e.p.er)))

(* Jobs: lists of tasks, each a list of operations per store. *)
StepsWith(j, cid) == {t \in DOMAIN j.tk : \E o \in DOMAIN j.tk[t] : \E k \in DOMAIN j.tk[t][o].c : j.tk[t][o].c[k].id = cid}
OpsWith(j, t, cid) == {o \in DOMAIN j.tk[t] : \E k \in DOMAIN j.tk[t][o].c : j.tk[t][o].c[k].id = cid}
Min0(T) == CHOOSE x \in T : \A y \in T : x <= y
Done(j, t, cid) ==
  LET j1 == [j EXCEPT !.tk[t] = [o \in DOMAIN @ |-> IF o \in OpsWith(j, t, cid) THEN [@[o] EXCEPT !.ok = TRUE] ELSE @[o]]]
  IN IF \E o \in DOMAIN j1.tk[t] : ~j1.tk[t][o].ok /\ j1.tk[t][o].c # <<>> THEN j1 ELSE [j1 EXCEPT !.nx = @ + 1]
Failed(j, t, o, s) ==
  LET e0 == j.tk[t][o].er
      e1 == IF Len(e0) >= ErrMax THEN Tail(e0) ELSE e0
  IN [j EXCEPT !.nx = t - 1, !.tk[t][o] = [@ EXCEPT !.rt = @ + 1, !.er = Append(e1, s.er), !.c = [k \in DOMAIN @ |-> IF @[k].id = s.c THEN [@[k] EXCEPT !.s = s.s, !.er = s.er, !.re = 1] ELSE @[k]]]]
GiveUp(j, t, o) == j.tk[t][o].rt > RetryMax /\ ~(\E i \in 1..j.nx : \E p \in DOMAIN j.tk[i] : \E k \in DOMAIN j.tk[i][p].c : j.tk[i][p].c[k].cr)
STATUS_DONE == 1
STATUS_FAIL == 2
RECURSIVE Progress(_, _)
Progress(j, ss) ==     \* k = "set": the job after reports on its commands; "gone": it was given up; "keep": a report names a command it does not have
  IF ss = <<>> THEN [k |-> "set", j |-> j]
  ELSE LET s == Head(ss) IN
    IF StepsWith(j, s.c) = {} THEN [k |-> "keep", j |-> j]
    ELSE LET t == Min0(StepsWith(j, s.c)) o == Min0(OpsWith(j, t, s.c)) IN
      IF s.s = STATUS_DONE /\ t - 1 = j.nx THEN Progress(Done(j, t, s.c), Tail(ss))
      ELSE IF s.s = STATUS_FAIL THEN IF GiveUp(j, t, o) THEN [k |-> "gone", j |-> j] ELSE Progress(Failed(j, t, o, s), Tail(ss))
      ELSE Progress(j, Tail(ss))
MoveCmd(j, cid, st) ==
  IF StepsWith(j, cid) = {} THEN j
  ELSE LET t == Min0(StepsWith(j, cid)) o == Min0(OpsWith(j, t, cid)) c == j.tk[t][o].c
           k == Min0({x \in DOMAIN c : c[x].id = cid})
           to == {x \in DOMAIN j.tk[t] : j.tk[t][x].st = st}
           l1 == IF to = {} THEN Append(j.tk[t], [st |-> st, ok |-> FALSE, rt |-> 0, er |-> <<>>, c |-> <<c[k]>>]) ELSE [j.tk[t] EXCEPT ![Min0(to)].c = Append(@, c[k])]
       IN [j EXCEPT !.tk[t] = [l1 EXCEPT ![o].c = RemoveAt(@, k)]]
Jobs(S, l) == Fold(S, l, LAMBDA a, e :
  CASE e.o = "C" \/ e.o = "U" -> Put(a, e.p)
    [] e.o = "D" -> Del(a, e.id)
    [] ~Has(a, e.id) -> a
    [] e.mc # 0 -> Put(a, MoveCmd(Get(a, e.id), e.mc, e.t))
    [] OTHER -> LET q == Progress(Get(a, e.id), e.st) IN IF q.k = "gone" THEN Del(a, e.id) ELSE IF q.k = "keep" THEN a ELSE Put(a, q.j))

ApplyEntry(s, e) ==
  IF (e.n <= s.ap /\ e.t <= s.at) \/ \A f \in DOMAIN e \ {"n", "t"} : e[f] = <<>> THEN s
  ELSE LET sc == Lists(Lists(Schemas(s.sc, e.sc, e.n), e.ix, "ix"), e.tb, "tb")
           so == Ops(s.so, e.so)
       IN [ap |-> e.n, at |-> e.t, ep |-> Eps(s.ep, e.ep), pl |-> Plain(s.pl, e.pl), tn |-> Tenants(s.tn, e.tn, e.n), sc |-> sc, rg |-> Regions(s.rg, e.rg, e.n), ti |-> TabIdx(s.ti, e.ti, e.n),
           tb |-> Tables(s.tb, e.tb, e.n), ix |-> Tables(s.ix, e.ix, e.n), so |-> so, rc |-> Cmds(Moved(s.rc, so, e.so), e.rc), jb |-> Jobs(Errors(s.jb, e.rc), e.jb)]

(* What a leader looks up is what the state says: names, next ids and the regions by their start. *)
MapsOk(s, m) ==
  /\ \A x \in m.rm : Has(s.rg, x.id) /\ LET r == Get(s.rg, x.id) IN r.s = x.s /\ (r.lt => \E y \in m.rd : y.id = x.id /\ y.d = x.d)
  /\ \A r \in s.rg : r.lt => \E x \in m.rm : x.s = r.s /\ Has(s.rg, x.id) /\ Get(s.rg, x.id).lt
  /\ m.nm => /\ m.ep = s.ep
             /\ \A p \in {<<m.sn, m.ks>>, <<m.tn, m.kt>>, <<m.xn, m.kx>>} :
                  /\ {x.k : x \in p[1]} = {x.k : x \in p[2]}
                  /\ \A x \in p[1] : \E y \in p[2] : y.k = x.k /\ y.id = x.id
=============================================================================
