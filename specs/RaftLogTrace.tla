---------------------------- MODULE RaftLogTrace ----------------------------
(* Conformance: recorded histories of the real log storage (three regions), with restarts, power failures after an
   answer and crashes inside an operation, followed step by step; and runs with several threads at the same time. *)
EXTENDS RaftLog, Json, IOUtils, TLC
VARIABLES i, ps, s
Raw0 == ndJsonDeserialize(IOEnv.TRACE)
Res(st, bad) == [st |-> st, bad |-> bad]
Seen(g, a) == a.f = g.f /\ a.l = g.l /\ a.x = g.x
Confs(x) == LET c == SelectSeq(x, LAMBDA e : e[3] = 3) IN [j \in 1..Len(c) |-> <<c[j][1], c[j][2], c[j][4]>>]
\* the log a restart came up with; an empty log may or may not remember where it stood
Up(g, xs, a) == /\ a.x \in xs
                /\ (a.f = Recover([g EXCEPT !.x = a.x]).f /\ a.l = Recover([g EXCEPT !.x = a.x]).l) \/ (a.x = g.x /\ a.f = g.f /\ a.l = g.l)
Adopt(g, a) == [f |-> a.f, l |-> a.l, x |-> a.x, mk |-> Zero(Len(g.mk))]
Restarted(st, v, xs) ==
  Res([r \in 1..3 |-> Adopt(st[r], v.a[r])],
      IF \A r \in 1..3 : Up(st[r], xs[r], v.a[r]) THEN IF \A r \in 1..3 : v.c[r] = Confs(v.a[r].x) THEN "" ELSE "configurations"
      ELSE IF v.e = "crash" THEN "crash" ELSE "durable")
Find(g, k) == SelectSeq(g.x, LAMBDA e : e[1] = k)
Step(st, v) ==
  IF v.e = "new" THEN LET s0 == [r \in 1..3 |-> Fresh(IF v.m THEN 2 ELSE 1)] IN Res(s0, IF \A r \in 1..3 : Seen(s0[r], v.a[r]) THEN "" ELSE "fresh")
  ELSE IF v.e = "op" THEN LET n == [st EXCEPT ![v.p.r] = Do(@, v.p)] IN
    Res([r \in 1..3 |-> [n[r] EXCEPT !.f = v.a[r].f, !.l = v.a[r].l, !.x = v.a[r].x]], IF \A r \in 1..3 : Seen(n[r], v.a[r]) THEN "" ELSE v.p.o)
  ELSE IF v.e = "restart" THEN Restarted(st, v, [r \in 1..3 |-> {st[r].x}])
  ELSE IF v.e = "crash" THEN Restarted(st, v, [r \in 1..3 |-> IF r = v.p.r THEN After(st[r], v.p) ELSE {st[r].x}])
  ELSE LET g == st[v.r] IN Res(st,
    IF v.e = "term" THEN IF v.t = (IF Find(g, v.i) = <<>> THEN 0 ELSE Find(g, v.i)[1][2]) THEN "" ELSE "term"
    ELSE IF v.e = "entry" THEN IF v.x = Find(g, v.i) THEN "" ELSE "entry"
    ELSE IF v.e = "range" THEN IF v.x = SelectSeq(g.x, LAMBDA e : e[1] >= v.i /\ e[1] < v.j /\ (v.d => e[3] = 2)) THEN "" ELSE "range"
    ELSE IF v.b = (SelectSeq(g.x, LAMBDA e : e[1] >= v.i /\ e[1] < v.j /\ e[3] = v.k /\ (v.t = 0 \/ e[2] = v.t)) # <<>>) THEN "" ELSE "has")
\* several threads: thread 1..3 works on its region, thread 4 tells that the vector index of region 1 needs less
RECURSIVE Fold(_, _)
Fold(g, ps0) == IF ps0 = <<>> THEN g ELSE Fold(Do(g, ps0[1]), Tail(ps0))
\* every order of two threads' operations on one region, stopped when at least m and n of them were answered
RECURSIVE Inter(_, _, _, _, _)
Inter(g, a, b, m, n) ==
  (IF m <= 0 /\ n <= 0 THEN {g} ELSE {})
  \cup (IF a # <<>> THEN Inter(Do(g, a[1]), Tail(a), b, m - 1, n) ELSE {})
  \cup (IF b # <<>> THEN Inter(Do(g, b[1]), a, Tail(b), m, n - 1) ELSE {})
Conc(v) ==
  LET g1 == Fold(Fresh(2), v.pre)
      st(r) == IF r = 1 THEN g1 ELSE Fresh(2)
      end(r) == Inter(st(r), v.ops[r], IF r = 1 THEN v.ops[4] ELSE <<>>, Len(v.ops[r]), IF r = 1 THEN Len(v.ops[4]) ELSE 0)
      dur(r) == Inter(st(r), v.ops[r], IF r = 1 THEN v.ops[4] ELSE <<>>, v.at[r], 0) IN   \* that the vector index needs less may be forgotten
  IF ~Seen(g1, v.first[1]) THEN "first"
  ELSE IF \E r \in 1..3 : ~\E g \in end(r) : Seen(g, v.live[r]) THEN "order"
  ELSE IF \E r \in 1..3 : ~\E g \in dur(r) : Up(g, {g.x}, v.after[r]) THEN "durable"
  ELSE IF \E r \in 1..3 : v.c[r] # Confs(v.after[r].x) THEN "configurations" ELSE ""
Report(b, key, j) == IF b = "" THEN TRUE ELSE PrintT(<<"BAD", key \o b, j, ps, IF j = 0 THEN Raw0[ps] ELSE Raw0[ps].h[j], "state", s>>)
Init == i = 0 /\ ps = 1 /\ s = <<>>
Next ==
  /\ ps <= Len(Raw0)
  /\ IF "h" \in DOMAIN Raw0[ps]
     THEN LET h == Raw0[ps].h IN
          IF i < Len(h) THEN LET r == Step(s, h[i + 1]) IN Report(r.bad, "wal-", i + 1) /\ s' = r.st /\ (IF r.bad = "" THEN i' = i + 1 /\ UNCHANGED ps ELSE i' = 0 /\ ps' = ps + 1)
          ELSE ps' = ps + 1 /\ i' = 0 /\ s' = <<>>
     ELSE Report(Conc(Raw0[ps]), "walconc-", 0) /\ ps' = ps + 1 /\ i' = 0 /\ s' = <<>>
=============================================================================
