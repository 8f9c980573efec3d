------------------------------- MODULE Jobs_mc -------------------------------
(* The coordinator of Jobs.tla with stores: replicas of regions which apply the log of their region one after the other, leaders which
   change, answers which get lost, and a coordinator which restarts. No job may be left, no replica may split or merge a region whose
   other half it does not have, and at rest coordinator and stores agree and the regions cover the keys once. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Stores, Keys, Peers0, MaxReq, MaxLost, MaxMove, MaxCrash, Kinds
J == INSTANCE Jobs
VARIABLES c, w, n, b   \* coordinator; stores; last ids; budgets
vars == <<c, w, n, b>>
Has(f, k) == k \in DOMAIN f
Rep(lo, hi, v, cv, st, ps, at) == [lo |-> lo, hi |-> hi, v |-> v, cv |-> cv, st |-> st, ps |-> ps, at |-> at]
Lo == 0
Hi == Keys
InitReg == [id |-> 1, st |-> "NORMAL", lo |-> Lo, hi |-> Hi, cv |-> 1, v |-> 1, ps |-> Peers0]
L0 == CHOOSE s \in Peers0 : \A z \in Peers0 : s <= z
\* two neighbours with the same peers
Half == Keys \div 2
R(id, lo, hi) == [id |-> id, st |-> "NORMAL", lo |-> lo, hi |-> hi, cv |-> 1, v |-> 2, ps |-> Peers0]
Regs0 == (1 :> R(1, Half, Hi)) @@ (2 :> R(2, Lo, Half))
Init == /\ c = [r |-> Regs0, j |-> <<>>, sm |-> [s \in Stores |-> IF s \in Peers0 THEN [id \in {1, 2} |-> "NORMAL"] ELSE <<>>], m |-> [id \in {1, 2} |-> [ls |-> L0, st |-> "NORMAL", ps |-> Peers0]], f |-> 0, rt |-> 1]
        /\ w = [st |-> [s \in Stores |-> IF s \in Peers0 THEN [id \in {1, 2} |-> Rep(Regs0[id].lo, Regs0[id].hi, 2, 1, "NORMAL", Peers0, 0)] ELSE <<>>], lg |-> [id \in {1, 2} |-> <<>>], ld |-> [id \in {1, 2} |-> L0], dn |-> {}, bad |-> FALSE]
        /\ n = [r |-> 2, j |-> 0, c |-> 0] /\ b = [req |-> MaxReq, lost |-> MaxLost, move |-> MaxMove, crash |-> MaxCrash]
-----------------------------------------------------------------------------
(* Stores. *)
Set(x, s, id, v) == [x EXCEPT !.st[s] = J!With(@, id, v)]
Lead(x, id) == IF Has(x.ld, id) THEN x.ld[id] ELSE 0
Elect(x, id) ==   \* a group without a leader gets one when a majority exists
  IF Lead(x, id) # 0 /\ Has(x.st[Lead(x, id)], id) THEN x ELSE
  LET have == {s \in Stores : Has(x.st[s], id)} IN
  IF have = {} THEN [x EXCEPT !.ld = J!With(@, id, 0)] ELSE
  LET t == CHOOSE s \in have : \A z \in have : x.st[z][id].at < x.st[s][id].at \/ (x.st[z][id].at = x.st[s][id].at /\ s <= z)
  IN IF 2 * Cardinality(have) > Cardinality(x.st[t][id].ps) THEN [x EXCEPT !.ld = J!With(@, id, t)] ELSE [x EXCEPT !.ld = J!With(@, id, 0)]
Max(a, d) == IF a > d THEN a ELSE d
RECURSIVE App(_, _, _), Catch(_, _, _)
App(x, s, id) ==   \* one entry
  LET m == x.st[s][id] o == x.lg[id][m.at + 1] m1 == [m EXCEPT !.at = @ + 1] IN
  CASE o.k = "split" ->
        IF ~Has(x.st[s], o.a) /\ ~o.sc THEN Set([x EXCEPT !.bad = TRUE], s, id, m1) ELSE
        LET y == Set(x, s, o.a, Rep(m.lo, o.key, 2, IF Has(x.st[s], o.a) THEN x.st[s][o.a].cv ELSE 1, "NORMAL", IF Has(x.st[s], o.a) THEN x.st[s][o.a].ps ELSE m.ps, 0))
        IN Elect(Set([y EXCEPT !.lg = IF Has(@, o.a) THEN @ ELSE J!With(@, o.a, <<>>)], s, id, [m1 EXCEPT !.lo = o.key, !.v = @ + 1]), o.a)
    [] o.k = "prepare" -> Set(x, s, id, [m1 EXCEPT !.st = "MERGING", !.v = @ + 1])
    [] o.k = "merge" ->
        IF ~Has(x.st[s], o.a) THEN Set([x EXCEPT !.bad = TRUE], s, id, m1) ELSE
        LET y == IF x.st[s][o.a].st = "MERGING" THEN x ELSE Catch(x, s, o.a)
            f == y.st[s][o.a]
        IN IF f.st # "MERGING" THEN [y EXCEPT !.bad = TRUE]
           ELSE Set(Set(y, s, o.a, [f EXCEPT !.st = "TOMBSTONE", !.v = @ + 1, !.lo = J!NoKey]), s, id, [m1 EXCEPT !.v = Max(m.v, f.v) + 1, !.lo = IF f.hi = m.lo THEN f.lo ELSE m.lo, !.hi = IF f.hi = m.lo THEN m.hi ELSE f.hi])
    [] o.k = "peers" -> Set(x, s, id, [m1 EXCEPT !.ps = o.ps, !.cv = @ + 1])
Catch(x, s, id) == IF Has(x.st[s], id) /\ x.st[s][id].at < Len(x.lg[id]) THEN Catch(App(x, s, id), s, id) ELSE x
Add(x, s, id, o) == Catch([x EXCEPT !.lg[id] = Append(@, o)], s, id)
E(k) == [k |-> k, a |-> 0, key |-> 0, sc |-> FALSE, ps |-> {}]
Ans(x, e, o) == [w |-> x, e |-> e, o |-> o]
Done(x, s, q) == Ans([x EXCEPT !.dn = @ \cup {q.c}], "ok", 0)
Exec(x0, s, q) ==
  LET id == q.r has == Has(x0.st[s], id) IN
  IF q.c \in x0.dn THEN Ans(x0, "repeat", 0) ELSE
  IF q.k = "create" THEN
    (IF has THEN Ans(x0, "exist", 0) ELSE
     Done(Elect(Set([x0 EXCEPT !.lg = IF Has(@, id) THEN @ ELSE J!With(@, id, <<>>)], s, id, IF Lead(x0, id) # 0 THEN x0.st[x0.ld[id]][id] ELSE Rep(q.a, q.b, 1, 1, IF q.d > 0 THEN "STANDBY" ELSE "NORMAL", q.ps, 0)), id), s, q))
  ELSE IF q.k = "delete" THEN (IF ~has THEN Ans(x0, "notfound", 0) ELSE
     Done(Elect([x0 EXCEPT !.st[s] = J!Without(@, id), !.ld[id] = IF @ = s THEN 0 ELSE @], id), s, q))
  ELSE IF ~has THEN Ans(x0, "notfound", 0)
  ELSE IF Lead(x0, id) # s THEN Ans(x0, "notleader", Lead(x0, id))
  ELSE LET x == Catch(x0, s, id) m == x.st[s][id] IN
    IF m.st # "NORMAL" THEN Ans(x, "other", 0) ELSE
    CASE q.k = "split" -> IF q.b <= m.lo \/ q.b >= m.hi \/ (q.d = 0 /\ \E z \in m.ps : ~Has(x.st[z], q.a) \/ x.st[z][q.a].st # "STANDBY") THEN Ans(x, "other", 0)
                          ELSE Done(Add(x, s, id, [E("split") EXCEPT !.a = q.a, !.key = q.b, !.sc = (q.d = 1)]), s, q)
      [] q.k = "merge" -> LET t == Lead(x, q.a) IN
                          IF t = 0 \/ ~Has(x.st[s], q.a) THEN Ans(x, "other", 0) ELSE
                          LET y == Catch(x, t, q.a) tm == y.st[t][q.a] IN
                          IF tm.st # "NORMAL" \/ m.ps # tm.ps \/ (m.hi # tm.lo /\ tm.hi # m.lo) THEN Ans(y, "other", 0)
                          ELSE Done(Add(Add(y, s, id, E("prepare")), t, q.a, [E("merge") EXCEPT !.a = id]), s, q)
      [] q.k = "peers" -> IF \E z \in q.ps : ~Has(x.st[z], id) THEN Ans(x, "notfound", 0) ELSE
                          LET fresh == {z \in q.ps : z \notin m.ps}   \* catches up first
                              y == [x EXCEPT !.st = [z \in Stores |-> IF z \in fresh THEN J!With(@[z], id, m) ELSE @[z]]]
                              a == Add(y, s, id, [E("peers") EXCEPT !.ps = q.ps])
                              to == CHOOSE z \in q.ps : \A v \in q.ps : z <= v
                          IN Done(IF s \in q.ps THEN a ELSE [Catch(a, to, id) EXCEPT !.ld[id] = to], s, q)
      [] q.k = "transfer" -> IF q.a \notin m.ps THEN Ans(x, "other", 0) ELSE Done([Catch(x, q.a, id) EXCEPT !.ld[id] = q.a], s, q)
-----------------------------------------------------------------------------
Rk(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A x, y \in 1..Cardinality(S) : x < y => f[x] < f[y]
Report(s) == LET S == {id \in DOMAIN w.st[s] : w.st[s][id].st # "MERGING"} f == Rk(S) IN
  [k \in 1..Cardinality(S) |-> LET m == w.st[s][f[k]] IN [id |-> f[k], st |-> m.st, lo |-> m.lo, hi |-> m.hi, cv |-> m.cv, v |-> m.v, ps |-> m.ps, ld |-> Lead(w, f[k]) = s, ls |-> Lead(w, f[k])]]
Beat(s) == c' = J!Hb(c, s, FALSE, FALSE, Report(s)) /\ c' # c /\ UNCHANGED <<w, n, b>>
\* new jobs get ids; their commands too
RECURSIVE Number(_, _, _, _), NumOps(_, _, _)
NumOps(S, seq, k) == IF S = {} THEN [ops |-> seq, k |-> k] ELSE
  LET o == CHOOSE o \in S : \A z \in S : o.s <= z.s IN
  NumOps(S \ {o}, Append(seq, [s |-> o.s, p |-> o.p, cs |-> [x \in DOMAIN o.cs |-> o.cs[x] @@ [c |-> k + x]], ok |-> FALSE, rc |-> 0]), k + Len(o.cs))
Number(ts, out, k, nm) == IF ts = <<>> THEN [j |-> [nm |-> nm, nx |-> 0, ts |-> out], k |-> k] ELSE
  LET r == NumOps(ts[1].ops, <<>>, k) IN Number(Tail(ts), Append(out, [ops |-> r.ops, dr |-> ts[1].dr]), r.k, nm)
RECURSIVE AddJobs(_, _, _)
AddJobs(d, k, S) == IF S = {} THEN [c |-> d, n |-> k] ELSE LET s == CHOOSE s \in S : TRUE r == Number(s.ts, <<>>, k.c, s.nm) IN AddJobs([d EXCEPT !.j = J!With(@, k.j + 1, r.j @@ [id |-> k.j + 1])], [k EXCEPT !.j = @ + 1, !.c = r.k], S \ {s})
Q(k, id) == [k |-> k, r |-> id, a |-> 0, b |-> 0, d |-> 0, ps |-> {}]
Reqs == {[Q("split", id) EXCEPT !.b = k, !.d = d] : id \in DOMAIN c.r, k \in 1..(Keys - 1), d \in {0, 1}} \cup {[Q("merge", x) EXCEPT !.a = y] : x \in DOMAIN c.r, y \in DOMAIN c.r}
        \cup {[Q("peers", id) EXCEPT !.ps = ps] : id \in DOMAIN c.r, ps \in SUBSET Stores \ {{}}} \cup {[Q("transfer", id) EXCEPT !.a = s] : id \in DOMAIN c.r, s \in Stores}
Req == \E q \in {q \in Reqs : q.k \in Kinds} : /\ b.req > 0 /\ J!Accepts(c, q) /\ b' = [b EXCEPT !.req = @ - 1]
          /\ LET id == n.r + 1 a == AddJobs([c EXCEPT !.r = J!NewRegs(c, q, id, {})], [n EXCEPT !.r = IF q.k = "split" THEN id ELSE @], J!NewJobs(c, q, id, {})) IN c' = a.c /\ n' = a.n
          /\ UNCHANGED w
\* one round: commands that create first, those that delete last; answers of a store may be lost, its commands then carried out or not
RECURSIVE Run(_, _, _, _, _), ToStore(_, _, _)
Ord(q) == (IF q.k = "create" THEN 0 ELSE IF q.k = "delete" THEN 20000 ELSE 10000) + q.c
ToStore(x, s, S) == IF S = {} THEN [w |-> x, as |-> <<>>] ELSE
  LET q == CHOOSE q \in S : \A z \in S : Ord(q) <= Ord(z) r == Exec(x, s, q) t == ToStore(r.w, s, S \ {q}) IN [w |-> t.w, as |-> <<[c |-> q.c, e |-> r.e, o |-> r.o]>> \o t.as]
Run(d, x, due, ss, how) == IF ss = <<>> THEN [c |-> d, w |-> x] ELSE
  LET s == ss[1] r == ToStore(x, s, due[s]) IN
  Run(IF how[s] = "ok" THEN J!Answers(d, s, r.as) ELSE d, IF how[s] = "no" THEN x ELSE r.w, due, Tail(ss), how)
Due0 == [s \in Stores |-> {q \in J!AllDue(c, s) : q.k = "create"}]
Due1 == [s \in Stores |-> {q \in J!AllDue(c, s) : q.k # "create"}]
\* failures are counted up to the point where they matter
Cap(d) == [d EXCEPT !.j = [k \in DOMAIN @ |-> [@[k] EXCEPT !.ts = [x \in DOMAIN @ |-> [@[x] EXCEPT !.ops = [y \in DOMAIN @ |-> [@[y] EXCEPT !.rc = IF @ > d.rt THEN d.rt + 1 ELSE @]]]]]], !.f = IF @ > 0 THEN 1 ELSE 0]
RoundR(how) ==
  LET r == Run(J!Advance(c), w, Due0, Rk(Stores), how) z == Run(r.c, r.w, Due1, Rk(Stores), how)
      dj == UNION {{J!DropJob(id, s) : s \in c.r[id].ps} : id \in J!Dropped(c)} a == AddJobs(Cap(z.c), n, dj) IN [c |-> a.c, w |-> z.w, n |-> a.n]
Well == [s \in Stores |-> "ok"]
Round == \E how \in (IF b.lost > 0 THEN [Stores -> {"ok", "lost", "no"}] ELSE {Well}) :
  LET lost == {s \in Stores : how[s] # "ok"} IN
  /\ Cardinality(lost) <= b.lost /\ (\A s \in lost : J!AllDue(c, s) # {}) /\ b' = [b EXCEPT !.lost = @ - Cardinality(lost)]
  /\ LET r == RoundR(how) IN <<r.c, r.w>> # <<c, w>> /\ c' = r.c /\ w' = r.w /\ n' = r.n
Step == \E s \in Stores : \E id \in DOMAIN w.st[s] : w.st[s][id].at < Len(w.lg[id]) /\ w' = App(w, s, id) /\ UNCHANGED <<c, n, b>>
Move == b.move > 0 /\ b' = [b EXCEPT !.move = @ - 1] /\ \E id \in DOMAIN w.ld : \E s \in Stores : w.ld[id] \notin {0, s} /\ Has(w.st[s], id) /\ s \in w.st[w.ld[id]][id].ps /\ w.st[s][id].at = Len(w.lg[id])
          /\ w' = [w EXCEPT !.ld[id] = s] /\ UNCHANGED <<c, n>>
Crash == b.crash > 0 /\ b' = [b EXCEPT !.crash = @ - 1] /\ c' = J!Restart(c) /\ UNCHANGED <<w, n>>
Work == (\E s \in Stores : Beat(s)) \/ Round \/ Step
Next == Work \/ Req \/ Move \/ Crash
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Halves == ~w.bad
\* nothing left to do: what the coordinator and the stores are left with when everything is delivered
Rest == (\A s \in Stores : J!Hb(c, s, FALSE, FALSE, Report(s)) = c /\ \A id \in DOMAIN w.st[s] : w.st[s][id].at = Len(w.lg[id])) /\ RoundR(Well) = [c |-> c, w |-> w, n |-> n]
Live == {id \in DOMAIN c.r : c.r[id].lo < c.r[id].hi /\ c.r[id].st # "TOMBSTONE"}
AtRest == Rest =>
  /\ \A k \in DOMAIN c.j : ~J!Over(c.j[k]) /\ \E y \in DOMAIN J!Cur(c.j[k]).ops : J!Cur(c.j[k]).ops[y].cs # <<>> /\ J!Cur(c.j[k]).ops[y].rc > c.rt   \* refused by the store for good
  /\ \A s \in Stores : \A id \in DOMAIN w.st[s] : (DOMAIN c.j = {} /\ c.f = 0) => /\ id \in DOMAIN c.r /\ s \in c.r[id].ps
       /\ LET m == w.st[s][id] IN c.r[id] = [id |-> id, st |-> m.st, lo |-> m.lo, hi |-> m.hi, cv |-> m.cv, v |-> m.v, ps |-> m.ps]
  /\ (DOMAIN c.j = {} /\ c.f = 0) => \A id \in DOMAIN c.r : \A s \in c.r[id].ps : Has(w.st[s], id)
  /\ \A k \in Lo..(Hi - 1) : Cardinality({id \in Live : c.r[id].lo <= k /\ k < c.r[id].hi}) = 1
\* leaders never change their range without all replicas of the other half: replicas that have applied the same entries agree
Same == \A id \in DOMAIN w.lg : \A s, z \in Stores : Has(w.st[s], id) /\ Has(w.st[z], id) /\ w.st[s][id].at = w.st[z][id].at /\ w.st[s][id].v = w.st[z][id].v => w.st[s][id].hi = w.st[z][id].hi
=============================================================================
