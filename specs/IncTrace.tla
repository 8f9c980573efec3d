------------------------------ MODULE IncTrace ------------------------------
(* Conformance: recorded histories of the real auto-increment service, followed event by event. *)
EXTENDS Inc, Json, IOUtils, TLC
VARIABLES i, ps, s
Raw == ndJsonDeserialize(IOEnv.TRACE)
N3 == 1..3
Rng(q) == {q[k] : k \in DOMAIN q}
Empty == <<>>
S0 == [m |-> [n \in N3 |-> Empty], lt |-> [n \in N3 |-> 0], ap |-> [n \in N3 |-> 0], pd |-> [n \in N3 |-> <<>>], log |-> <<>>, snap |-> <<>>,
       q |-> Empty, x |-> Empty, done |-> Empty, fl |-> [t \in 1..3 |-> <<0, 0>>]]   \* per request: asked, expected, what the log says
Set(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
AsSet(m) == {[t |-> t, s |-> m[t]] : t \in DOMAIN m}
Expect(st, v) ==
  IF st.lt[v.n] = 0 THEN [r |-> "nl", xs |-> <<>>]
  ELSE IF v.op = "get" THEN IF Has(st.m[v.n], v.t) THEN [r |-> "is", xs |-> <<st.m[v.n][v.t]>>] ELSE Err
  ELSE IF v.op = "gets" THEN [r |-> "is", xs |-> AsSet(st.m[v.n])]
  ELSE Admit(st.m[v.n], v)
Res(st, bad) == [st |-> st, bad |-> bad]
\* what the leader tells the client of an entry it applies to m
Told(m, xs) == IF xs = <<>> \/ xs[1].op # "gen" THEN [r |-> "ok", a |-> <<>>]
               ELSE IF ~Has(m, xs[1].t) THEN [r |-> "err", a |-> <<>>]
               ELSE [r |-> "ok", a |-> <<m[xs[1].t], GenEnd(m[xs[1].t], xs[1].c, xs[1].inc, xs[1].off)>>]
Logged(st, n, id, xs) == [st EXCEPT !.log = Append(@, xs), !.fl = IF xs # <<>> /\ xs[1].op = "gen" THEN @ ELSE Floor(@, st.m[n], xs, st.q[id].force)]
Step(st, v) ==
  CASE v.e = "req" -> Res([st EXCEPT !.q = Set(@, v.id, v), !.x = Set(@, v.id, Expect(st, v))], "")
    [] v.e = "prop" -> LET x == st.x[v.id] IN Res([st EXCEPT !.pd[v.n] = Append(@, [id |-> v.id, xs |-> v.x])], IF x.r # "go" THEN "admitted" ELSE IF x.xs # v.x THEN "entry" ELSE "")
    [] v.e = "lead" -> Res([st EXCEPT !.lt[v.n] = v.t], "")
    [] v.e = "commit" -> LET p == Head(st.pd[v.n])
                             u == [Logged(st, v.n, p.id, p.xs) EXCEPT !.pd[v.n] = Tail(@), !.ap[v.n] = @ + 1, !.m[v.n] = ApplyAll(@, p.xs), !.done = Set(@, p.id, Told(st.m[v.n], p.xs))]
                         IN Res(u, IF AsSet(u.m[v.n]) # Rng(v.v) THEN "apply" ELSE "")
    [] v.e = "orphan" -> LET p == Head(st.pd[v.n]) IN Res(Logged(st, v.n, p.id, p.xs), "")
    [] v.e = "deliver" -> LET u == [st EXCEPT !.ap[v.n] = @ + 1, !.m[v.n] = ApplyAll(@, st.log[st.ap[v.n] + 1])] IN Res(u, IF AsSet(u.m[v.n]) # Rng(v.v) THEN "apply" ELSE "")
    [] v.e = "stop" -> Res([st EXCEPT !.lt[v.n] = 0, !.pd[v.n] = <<>>], IF AsSet(st.m[v.n]) # Rng(v.v) THEN "stop" ELSE "")
    [] v.e = "save" -> Res([st EXCEPT !.snap = Append(@, [m |-> st.m[v.n], ap |-> st.ap[v.n]])], "")
    [] v.e = "restart" -> LET k == IF v.k = 0 THEN [m |-> Empty, ap |-> 0] ELSE st.snap[v.k]  u == [st EXCEPT !.m[v.n] = k.m, !.ap[v.n] = k.ap, !.pd[v.n] = <<>>] IN Res(u, IF AsSet(k.m) # Rng(v.v) THEN "snapshot" ELSE "")
    [] v.e = "ans" ->
         LET x == st.x[v.id]  q == st.q[v.id]  gen == q.op = "gen" /\ v.r = "ok" IN
         IF gen /\ Less(v.a[1], st.fl[q.t]) THEN Res(st, "again")
         ELSE IF gen /\ Less(v.a[2], GenEnd(v.a[1], q.c, q.inc, q.off)) THEN Res(st, "short")
         ELSE IF x.r \in {"nl", "err"} THEN Res(st, IF v.r # x.r THEN "refused" ELSE "")
         ELSE IF x.r = "is" THEN Res(st, IF v.r # "ok" \/ (IF q.op = "gets" THEN Rng(v.a) ELSE v.a) # x.xs THEN "read" ELSE "")
         ELSE IF v.id \notin DOMAIN st.done THEN Res(st, IF v.r = "ok" THEN "unlogged" ELSE "")
         ELSE LET d == st.done[v.id] IN Res([st EXCEPT !.fl = IF gen THEN [@ EXCEPT ![q.t] = Max(@, v.a[2])] ELSE @], IF v.r # d.r \/ (gen /\ v.a # d.a) THEN "answer" ELSE "")
    [] v.e = "hang" -> Res(st, "hang")
    [] OTHER -> Res(st, "event")
Init == i \in DOMAIN Raw /\ ps = 0 /\ s = S0
Name(v) == IF v.e = "ans" THEN s.q[v.id].op ELSE v.e
Next == /\ ps < Len(Raw[i].h) /\ i' = i
        /\ LET v == Raw[i].h[ps + 1]  r == Step(s, v) IN
             IF r.bad = "" THEN ps' = ps + 1 /\ s' = r.st
             ELSE /\ PrintT(<<"BAD", "inc-" \o Name(v) \o ":" \o r.bad, i, ps + 1, v, "request", IF v.e \in {"ans", "prop"} THEN <<s.q[v.id], s.x[v.id], IF v.id \in DOMAIN s.done THEN s.done[v.id] ELSE <<>>>> ELSE IF v.e = "commit" THEN Head(s.pd[v.n]) ELSE <<>>, "counters", s.m, "floor", s.fl>>)
                  /\ ps' = Len(Raw[i].h) /\ s' = S0
=============================================================================
