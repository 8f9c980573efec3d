-------------------------------- MODULE Jobs --------------------------------
(* How the coordinator carries out changes of regions. A request becomes a job: a sequence of steps, each with operations on stores
   (a condition, commands) and, for one step of a merge, the removal of the merged region. The coordinator learns of regions only by
   the heartbeats of stores. c = [r |-> id -> region, j |-> id -> job, sm |-> store -> id -> what it reported last,
   m |-> id -> [ls, st, ps], what the coordinator takes for the region's leader, state and peers; f |-> jobs given up, rt |-> the number
   of failures of a command after which that happens]. *)
EXTENDS Integers, Sequences, FiniteSets
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Has(f, k) == k \in DOMAIN f
States == {"NORMAL", "STANDBY", "TOMBSTONE"}
-----------------------------------------------------------------------------
(* Heartbeats. Epochs only move forward; the definition with the newer epoch counts; else only the leader's word counts. *)
Met(m) == [ls |-> m.ls, st |-> m.st, ps |-> m.ps]
HbReg(c, s, pt, up, m) ==
  IF ~Has(c.r, m.id) THEN c ELSE
  LET r == c.r[m.id]
      m0 == IF Has(c.m, m.id) THEN c.m[m.id] ELSE Met(m)
      newer == m.cv > r.cv \/ m.v > r.v
      follower == ~m.ld \/ (m.ls > 0 /\ m.ls # s)
      old == ~follower /\ (r.cv > m.cv \/ r.v > m.v)
      stchg == m.st \in States /\ m.st # r.st
      other == Cardinality(r.ps) # Cardinality(m.ps)
      def == (newer \/ (other /\ ~old)) /\ (~pt \/ up)
      met == newer \/ (~follower /\ m0.ls # s) \/ m0.st # m.st \/ stchg \/ ((other \/ r.lo # m.lo \/ r.hi # m.hi) /\ ~old)
      r1 == IF def THEN [r EXCEPT !.lo = m.lo, !.hi = m.hi, !.cv = m.cv, !.v = m.v, !.ps = m.ps] ELSE r
      r2 == IF stchg THEN [r1 EXCEPT !.st = m.st] ELSE r1
      r3 == IF r2.v < r.v \/ (r2.v = r.v /\ r2.lo # r.lo) THEN r ELSE r2
  IN IF follower /\ ~newer THEN [c EXCEPT !.m = With(@, m.id, m0)]
     ELSE [c EXCEPT !.r[m.id] = r3, !.m = With(@, m.id, IF met THEN [Met(m) EXCEPT !.ls = IF follower THEN @ ELSE s] ELSE m0)]
RECURSIVE HbAll(_, _, _, _, _)
HbAll(c, s, pt, up, ms) == IF ms = <<>> THEN c ELSE HbAll(HbReg(c, s, pt, up, ms[1]), s, pt, up, Tail(ms))
\* ms: the regions of the store, or some of them (pt), sent because of a split (up: then the two of it)
Rep(ms) == [id \in {ms[k].id : k \in DOMAIN ms} |-> (CHOOSE k \in DOMAIN ms : ms[k].id = id)]
Hb(c, s, pt, up, ms) ==
  IF ms = <<>> THEN c ELSE
  LET new == [id \in DOMAIN Rep(ms) |-> ms[Rep(ms)[id]].st]
      c1 == [c EXCEPT !.sm = With(@, s, IF pt /\ Has(c.sm, s) THEN [id \in DOMAIN c.sm[s] \cup DOMAIN new |-> IF Has(c.sm[s], id) THEN c.sm[s][id] ELSE new[id]] ELSE new)]
  IN IF pt /\ up /\ Len(ms) # 2 THEN c1 ELSE HbAll(c1, s, pt, up, ms)
-----------------------------------------------------------------------------
(* The steps of jobs. Operation: [s |-> store, p |-> condition, cs |-> commands, ok, rc |-> failures]. *)
None == [k |-> "none", s |-> 0, r |-> 0, st |-> "", lo |-> 0-1, hi |-> 0-1, ps |-> {}]
AtStore(s, id, st) == [None EXCEPT !.k = "store", !.s = s, !.r = id, !.st = st]
AtRegion(id, st) == [None EXCEPT !.k = "region", !.r = id, !.st = st]
C(k, id) == [k |-> k, r |-> id, a |-> 0, b |-> 0, d |-> 0, ps |-> {}]
Op(s, p, cs) == [s |-> s, p |-> p, cs |-> cs]
T(ops) == [ops |-> ops, dr |-> <<>>]
CreateC(r, from) == [C("create", r.id) EXCEPT !.a = r.lo, !.b = r.hi, !.d = from, !.ps = r.ps]
CreateJob(r) == [nm |-> "CreateRegion", ts |-> <<T({Op(s, None, <<CreateC(r, 0)>>) : s \in r.ps})>>]
\* the child stands by on every peer and the parent takes part on every peer before the parent's leader is told to split
SplitJob(c, r, kid, key, sc) ==
  LET at == IF sc THEN {} ELSE kid.ps IN
  [nm |-> "SplitRegion", ts |-> <<T({Op(s, None, <<CreateC(kid, r.id)>>) : s \in at}), T({Op(s, AtStore(s, kid.id, "STANDBY"), <<>>) : s \in at}),
     T({Op(s, AtStore(s, r.id, "NORMAL"), <<>>) : s \in r.ps}),
     T({Op(c.m[r.id].ls, None, <<[C("split", r.id) EXCEPT !.a = kid.id, !.b = key, !.d = IF sc THEN 1 ELSE 0]>>)}),
     T({Op(s, AtStore(s, kid.id, "NORMAL"), <<>>) : s \in r.ps})>>]
\* the source goes when it is a tombstone on every peer
MergeJob(c, r, t) ==
  LET ls == c.m[r.id].ls IN
  [nm |-> "MergeRegion", ts |-> <<T({Op(ls, None, <<[C("merge", r.id) EXCEPT !.a = t.id]>>)}), T({Op(s, AtStore(s, r.id, "TOMBSTONE"), <<>>) : s \in r.ps}),
     [T({Op(ls, AtRegion(r.id, "TOMBSTONE"), <<>>)}) EXCEPT !.dr = <<r.id>>],
     T({Op(ls, [AtRegion(t.id, "NORMAL") EXCEPT !.lo = IF r.lo = t.hi THEN t.lo ELSE r.lo, !.hi = IF r.lo = t.hi THEN r.hi ELSE t.hi], <<>>)})>>]
\* a new peer exists before the group is told of it; an old one goes after the group has agreed
PeersJob(c, r, ps) ==
  LET ls == c.m[r.id].ls ch == T({Op(ls, None, <<[C("peers", r.id) EXCEPT !.ps = ps]>>)}) end == T({Op(ls, [AtRegion(r.id, "") EXCEPT !.ps = ps], <<>>)}) IN
  IF r.ps \subseteq ps THEN LET s == CHOOSE s \in ps \ r.ps : TRUE IN
    [nm |-> "ChangePeer", ts |-> <<T({Op(s, None, <<CreateC([r EXCEPT !.ps = ps], 0)>>)}), T({Op(s, AtStore(s, r.id, ""), <<>>)}), ch, end>>]
  ELSE LET s == CHOOSE s \in r.ps \ ps : TRUE IN
    [nm |-> "ChangePeer", ts |-> <<ch, T({Op(s, [AtRegion(r.id, "NORMAL") EXCEPT !.ps = ps], <<C("delete", r.id)>>)}), end>>]
TransferJob(c, r, to) == [nm |-> "TransferLeader", ts |-> <<T({Op(c.m[r.id].ls, None, <<[C("transfer", r.id) EXCEPT !.a = to]>>)})>>]
DropJob(id, s) == [nm |-> "DropRegion", ts |-> <<T({Op(s, None, <<C("delete", id)>>)})>>]
-----------------------------------------------------------------------------
(* Requests. *)
Cmds(j) == UNION {UNION {{o.cs[k] : k \in DOMAIN o.cs} : o \in {j.ts[x].ops[y] : y \in DOMAIN j.ts[x].ops}} : x \in DOMAIN j.ts}
Busy(c, id) == \E k \in DOMAIN c.j : \E q \in Cmds(c.j[k]) : q.r = id \/ (q.k \in {"split", "merge"} /\ q.a = id)
Ready(c, id) == c.r[id].st = "NORMAL" /\ Has(c.m, id)
Known(c, id) == Has(c.r, id)
SplitOk(c, q) == Known(c, q.r) /\ ~Busy(c, q.r) /\ ~Busy(c, 0) /\ q.b > c.r[q.r].lo /\ q.b < c.r[q.r].hi /\ Ready(c, q.r) /\ c.m[q.r].ps # {} /\ c.m[q.r].ls > 0
Touch(x, y) == x.lo = y.hi \/ y.lo = x.hi
MergeOk(c, q) == Known(c, q.r) /\ Known(c, q.a) /\ ~Busy(c, q.r) /\ ~Busy(c, q.a) /\ Ready(c, q.r) /\ Ready(c, q.a) /\ c.m[q.r].ps # {} /\ c.m[q.a].ps # {}
                 /\ q.r # q.a /\ c.r[q.r].ps = c.r[q.a].ps /\ c.r[q.r].lo < c.r[q.r].hi /\ c.r[q.a].lo < c.r[q.a].hi /\ Touch(c.r[q.r], c.r[q.a]) /\ c.m[q.r].ls > 0
\* every peer must have reported a region whose range changed once
Seen(c, q) == c.r[q.r].v > 1 => \A s \in c.r[q.r].ps : Has(c.sm, s) /\ Has(c.sm[s], q.r)
PeersFree(c, q) == LET r == c.r[q.r] IN
  /\ Known(c, q.r) /\ ~Busy(c, q.r) /\ Ready(c, q.r) /\ c.m[q.r].ls > 0
  /\ Cardinality((q.ps \ r.ps) \cup (r.ps \ q.ps)) = 1
PeersOk(c, q) == PeersFree(c, q) /\ Seen(c, q) /\ ~(c.r[q.r].ps \ q.ps = {c.m[q.r].ls} /\ Cardinality(q.ps) < 3)
PeersUnseen(c, q) == PeersFree(c, q) /\ ~Seen(c, q)
TransferOk(c, q) == Known(c, q.r) /\ c.r[q.r].st = "NORMAL" /\ Has(c.m, q.r) /\ c.m[q.r].ls > 0 /\ c.m[q.r].ls # q.a /\ q.a \in c.r[q.r].ps
CreateOk(c, q) == ~\E id \in DOMAIN c.r : c.r[id].lo < q.b /\ c.r[id].hi > q.a /\ c.r[id].lo < c.r[id].hi
DropOk(c, q) == Known(c, q.r)
Accepts(c, q) == CASE q.k = "split" -> SplitOk(c, q) [] q.k = "merge" -> MergeOk(c, q) [] q.k = "peers" -> PeersOk(c, q) [] q.k = "transfer" -> TransferOk(c, q) [] q.k = "create" -> CreateOk(c, q) [] q.k = "drop" -> DropOk(c, q)
NewReg(id, lo, hi, ps) == [id |-> id, st |-> "NEW", lo |-> lo, hi |-> hi, cv |-> 1, v |-> 1, ps |-> ps]
NoKey == 999
Gone(c, id) == [c EXCEPT !.r = Without(@, id), !.m = Without(@, id)]
\* what the request adds: regions, and jobs (up to the ids handed out); id: the id of the new region, ps: the stores chosen for it
NewRegs(c, q, id, ps) == IF q.k = "split" THEN With(c.r, id, NewReg(id, NoKey, c.r[q.r].lo, c.r[q.r].ps)) ELSE IF q.k = "create" THEN With(c.r, id, NewReg(id, q.a, q.b, ps)) ELSE IF q.k = "drop" THEN Without(c.r, q.r) ELSE c.r
NewJobs(c, q, id, ps) ==
  CASE q.k = "split" -> {SplitJob(c, c.r[q.r], NewReg(id, NoKey, c.r[q.r].lo, c.r[q.r].ps), q.b, q.d = 1)}
    [] q.k = "merge" -> {MergeJob(c, c.r[q.r], c.r[q.a])}
    [] q.k = "peers" -> {PeersJob(c, c.r[q.r], q.ps)}
    [] q.k = "transfer" -> {TransferJob(c, c.r[q.r], q.a)}
    [] q.k = "create" -> {CreateJob(NewReg(id, q.a, q.b, ps))}
    [] q.k = "drop" -> {DropJob(q.r, s) : s \in c.r[q.r].ps}
-----------------------------------------------------------------------------
(* Carrying out. One round: every job looks at its current step. *)
Holds(c, p) ==
  CASE p.k = "none" -> TRUE
    [] p.k = "region" -> /\ Has(c.r, p.r) /\ (p.st = "" \/ p.st = c.r[p.r].st) /\ (p.lo < 0 \/ (p.lo = c.r[p.r].lo /\ p.hi = c.r[p.r].hi)) /\ (p.ps = {} \/ p.ps = c.r[p.r].ps)
    [] p.k = "store" -> Has(c.sm, p.s) /\ Has(c.sm[p.s], p.r) /\ (p.st = "" \/ p.st = c.sm[p.s][p.r]) /\ Has(c.r, p.r)
    [] OTHER -> FALSE
Over(j) == j.nx = Len(j.ts)
Cur(j) == j.ts[j.nx + 1]
Due(c, j) == ~Over(j) /\ \A y \in DOMAIN Cur(j).ops : Holds(c, Cur(j).ops[y].p)
DueCmds(c, j, s) == IF Due(c, j) THEN UNION {{Cur(j).ops[y].cs[k] : k \in DOMAIN Cur(j).ops[y].cs} : y \in {y \in DOMAIN Cur(j).ops : Cur(j).ops[y].s = s}} ELSE {}
AllDue(c, s) == UNION {DueCmds(c, c.j[k], s) : k \in DOMAIN c.j}
Direct(c, j) == Due(c, j) /\ \A y \in DOMAIN Cur(j).ops : Cur(j).ops[y].cs = <<>>
Dropped(c) == {id \in DOMAIN c.r : \E k \in DOMAIN c.j : Due(c, c.j[k]) /\ \E x \in DOMAIN Cur(c.j[k]).dr : Cur(c.j[k]).dr[x] = id}
Advance(c) ==
  LET left == {k \in DOMAIN c.j : ~Over(c.j[k])} IN
  [c EXCEPT !.j = [k \in left |-> IF Direct(c, c.j[k]) THEN [c.j[k] EXCEPT !.nx = @ + 1] ELSE c.j[k]],
            !.r = [id \in DOMAIN c.r \ Dropped(c) |-> c.r[id]], !.m = [id \in DOMAIN c.m \ Dropped(c) |-> c.m[id]]]
(* The answers of the stores. *)
Good(k, e) == e \in {"ok", "repeat"} \/ (k = "create" /\ e = "exist") \/ (k = "delete" /\ e = "notfound")
OpHas(o, id) == \E k \in DOMAIN o.cs : o.cs[k].c = id
StepOf(j, id) == LET S == {x \in DOMAIN j.ts : \E y \in DOMAIN j.ts[x].ops : OpHas(j.ts[x].ops[y], id)} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
DoneJ(j, id) ==
  LET x == StepOf(j, id) IN IF x # j.nx + 1 THEN j ELSE
  LET ops == [y \in DOMAIN j.ts[x].ops |-> IF OpHas(j.ts[x].ops[y], id) THEN [j.ts[x].ops[y] EXCEPT !.ok = TRUE] ELSE j.ts[x].ops[y]]
      j1 == [j EXCEPT !.ts[x].ops = ops]
  IN IF \A y \in DOMAIN ops : ops[y].ok \/ ops[y].cs = <<>> THEN [j1 EXCEPT !.nx = @ + 1] ELSE j1
MadeRegions(j) == \E x \in 1..j.nx : \E y \in DOMAIN j.ts[x].ops : \E k \in DOMAIN j.ts[x].ops[y].cs : j.ts[x].ops[y].cs[k].k = "create"
FailY(j, id) == CHOOSE y \in DOMAIN j.ts[StepOf(j, id)].ops : OpHas(j.ts[StepOf(j, id)].ops[y], id)
GiveUp(c, j, id) == j.ts[StepOf(j, id)].ops[FailY(j, id)].rc > c.rt /\ ~MadeRegions(j)
FailJ(j, id) == LET x == StepOf(j, id) IN [j EXCEPT !.ts[x].ops[FailY(j, id)].rc = @ + 1, !.nx = x - 1]
MoveJ(j, id, to) ==
  LET x == StepOf(j, id) ops == j.ts[x].ops y == FailY(j, id) q == ops[y].cs[CHOOSE k \in DOMAIN ops[y].cs : ops[y].cs[k].c = id]
      cut == [ops EXCEPT ![y].cs = SelectSeq(@, LAMBDA z : z.c # id)]
      at == {z \in DOMAIN ops : ops[z].s = to}
  IN IF at # {} THEN [j EXCEPT !.ts[x].ops = [cut EXCEPT ![CHOOSE z \in at : \A w \in at : z <= w].cs = Append(@, q)]]
     ELSE [j EXCEPT !.ts[x].ops = Append(cut, [s |-> to, p |-> None, cs |-> <<q>>, ok |-> FALSE, rc |-> 0])]
JobOf(c, id) == LET S == {k \in DOMAIN c.j : StepOf(c.j[k], id) > 0} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
KindOf(j, id) == (CHOOSE q \in Cmds(j) : q.c = id).k
Answer(c, s, id, e, o) ==
  LET k == JobOf(c, id) IN IF k = 0 THEN c ELSE
  IF e = "notleader" THEN (IF o = 0 \/ o = s THEN c ELSE [c EXCEPT !.j[k] = MoveJ(@, id, o)])
  ELSE IF Good(KindOf(c.j[k], id), e) THEN [c EXCEPT !.j[k] = DoneJ(@, id)]
  ELSE IF GiveUp(c, c.j[k], id) THEN [c EXCEPT !.j = Without(@, k), !.f = @ + 1]
  ELSE [c EXCEPT !.j[k] = FailJ(@, id)]
RECURSIVE Answers(_, _, _)
Answers(c, s, as) == IF as = <<>> THEN c ELSE Answers(Answer(c, s, as[1].c, as[1].e, as[1].o), s, Tail(as))
Restart(c) == [c EXCEPT !.sm = <<>>, !.m = <<>>]
=============================================================================
