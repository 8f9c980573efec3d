------------------------------ MODULE JobsTrace ------------------------------
(* Conformance: what the real coordinator does with requests, heartbeats and the answers of stores. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
VARIABLES h, i, c, top, cr
Trace == ndJsonDeserialize(IOEnv.TRACE)
J == INSTANCE Jobs
H == Trace[h].h
PsOf(x) == [x EXCEPT !.ps = ToSet(@)]
RegsOf(e) == LET S == {PsOf(x) : x \in ToSet(e.rs)} IN [id \in {x.id : x \in S} |-> CHOOSE x \in S : x.id = id]
OpOf(o) == [o EXCEPT !.p = PsOf(@), !.cs = [k \in DOMAIN @ |-> PsOf(@[k])]]
JobJ(j) == [j EXCEPT !.ts = [x \in DOMAIN @ |-> [@[x] EXCEPT !.ops = [y \in DOMAIN @ |-> OpOf(@[y])]]]]
JobsOf(e) == LET S == {JobJ(x) : x \in ToSet(e.js)} IN [id \in {x.id : x \in S} |-> CHOOSE x \in S : x.id = id]
Strip(q) == [k |-> q.k, r |-> q.r, a |-> q.a, b |-> q.b, d |-> q.d, ps |-> q.ps]
Shape(j) == [nm |-> j.nm, ts |-> [x \in DOMAIN j.ts |-> [dr |-> j.ts[x].dr, ops |-> {[s |-> o.s, p |-> o.p, cs |-> [k \in DOMAIN o.cs |-> Strip(o.cs[k])]] : o \in ToSet(j.ts[x].ops)}]]]
Fresh(j) == j.nx = 0 /\ \A x \in DOMAIN j.ts : \A y \in DOMAIN j.ts[x].ops : ~j.ts[x].ops[y].ok /\ j.ts[x].ops[y].rc = 0
Ids(j) == {q.c : q \in J!Cmds(j)}
\* jobs: the old ones as wanted, the new ones with the wanted shapes and ids never used
NewOk(js, old, shapes) ==
  LET new == DOMAIN js \ DOMAIN old IN
  /\ \A k \in DOMAIN old : k \in DOMAIN js /\ js[k] = old[k]
  /\ {Shape(js[k]) : k \in new} = shapes /\ Cardinality(new) = Cardinality(shapes)
  /\ \A k \in new : k > top.j /\ Fresh(js[k]) /\ \A id \in Ids(js[k]) : id > top.c
Top(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x
TopOf(js) == [j |-> Top(DOMAIN js \cup {top.j}, 0), c |-> Top(UNION {Ids(js[k]) : k \in DOMAIN js} \cup {top.c}, 0)]
Bad(k, x) == PrintT(<<"BAD", "jobs-" \o k, h, i, x>>)
Check(k, ok, x) == IF ok THEN TRUE ELSE Bad(k, x)
Diff(f, g) == [lost |-> {f[k] : k \in {k \in DOMAIN f : ~(k \in DOMAIN g) \/ g[k] # f[k]}}, got |-> {g[k] : k \in {k \in DOMAIN g : ~(k \in DOMAIN f) \/ g[k] # f[k]}}]
\* requests
ReqOk(e, q) ==
  IF ~e.ok THEN RegsOf(e) = c.r /\ JobsOf(e) = c.j
  ELSE LET new == DOMAIN RegsOf(e) \ DOMAIN c.r id == Top(new, 0) ps == IF id = 0 THEN {} ELSE RegsOf(e)[id].ps IN
    /\ Cardinality(new) = (IF e.k \in {"split", "create"} THEN 1 ELSE 0) /\ (id = 0 \/ id > top.r)
    /\ RegsOf(e) = J!NewRegs(c, q, id, ps) /\ NewOk(JobsOf(e), c.j, J!NewJobs(c, q, id, ps))
    /\ (e.k = "create" => Cardinality(ps) = e.d /\ ps \subseteq 1..Trace[h].ns)
\* rounds: the commands due, each to its store, those which create before all others, those which delete after the others of the store
RECURSIVE Real(_)
Real(ms) == IF ms = <<>> THEN <<>> ELSE IF ms[1].a = "lost" THEN Real(Tail(ms)) ELSE <<ms[1]>> \o Real(Tail(ms))
KOf(id) == LET k == J!JobOf(c, id) IN IF k = 0 THEN "?" ELSE J!KindOf(c.j[k], id)
SentOk(e) ==
  LET ms == e.sent s == 1..Trace[h].ns IN
  /\ \A x \in DOMAIN ms : ms[x].s = ms[x].to /\ Len(ms[x].c) > 0
  /\ \A z \in s : LET S == UNION {ToSet(ms[x].c) : x \in {x \in DOMAIN ms : ms[x].s = z}} IN S = {q.c : q \in J!AllDue(c, z)}
  /\ \A x, y \in DOMAIN ms : x < y /\ (ToSet(ms[x].c) \cap ToSet(ms[y].c) # {}) => ms[x].c = ms[y].c /\ ms[x].s = ms[y].s /\ ms[x].a = "lost"
  /\ \A x \in DOMAIN ms : \A a, b \in DOMAIN ms[x].c : a < b => ms[x].c[a] # ms[x].c[b] /\ (KOf(ms[x].c[a]) = "delete" => KOf(ms[x].c[b]) = "delete")
  /\ \A x, y \in DOMAIN ms : x < y /\ (\E a \in DOMAIN ms[y].c : KOf(ms[y].c[a]) = "create") => \A a \in DOMAIN ms[x].c : KOf(ms[x].c[a]) = "create"
Res(m) == IF m.a = "ok" THEN [k \in DOMAIN m.c |-> [c |-> m.c[k], e |-> "ok", o |-> 0]] ELSE m.res
RECURSIVE Replies(_, _)
Replies(d, ms) == IF ms = <<>> THEN d ELSE Replies(J!Answers(d, ms[1].s, Res(ms[1])), Tail(ms))
Proc(e) == Replies(J!Advance(c), Real(e.sent))
DropShapes == UNION {{J!DropJob(id, s) : s \in c.r[id].ps} : id \in J!Dropped(c)}
\* at rest: stores and coordinator agree
EndOk(e) ==
  LET st == {PsOf(x) : x \in ToSet(e.st)} r == c.r
      stuck == {k \in DOMAIN c.j : \A y \in DOMAIN J!Cur(c.j[k]).ops : J!Cur(c.j[k]).ops[y].rc <= Trace[h].rt /\ J!Cur(c.j[k]).ops[y].cs # <<>>}
      idle == {k \in DOMAIN c.j : \A y \in DOMAIN J!Cur(c.j[k]).ops : J!Cur(c.j[k]).ops[y].cs = <<>>}
      calm == DOMAIN c.j = {} /\ c.f = 0
      live == {id \in DOMAIN r : r[id].lo < r[id].hi /\ r[id].st # "TOMBSTONE"}
  IN /\ Check("end-job", idle = {} /\ stuck = {}, [jobs |-> {c.j[k] : k \in idle \cup stuck}])
     /\ Check("end-child", ~e.bad, "a store split or merged a region whose other half it does not have")
     /\ Check("end-region", \A x \in st : x.id \in DOMAIN r /\ x.s \in x.ps => r[x.id] = [id |-> x.id, st |-> x.st, lo |-> x.lo, hi |-> x.hi, cv |-> x.cv, v |-> x.v, ps |-> x.ps], [st |-> st, r |-> r])
     /\ Check("end-cover", \A p \in {cr[k] : k \in DOMAIN cr} : \A key \in p[1]..(p[2] - 1) : Cardinality({id \in live : r[id].lo <= key /\ key < r[id].hi}) = 1, r)
     /\ Check("end-peers", calm => {<<x.s, x.id>> : x \in st} = UNION {{<<s, id>> : s \in r[id].ps} : id \in DOMAIN r}, [st |-> {<<x.s, x.id>> : x \in st}, r |-> r])
Init == h \in DOMAIN Trace /\ i = 1 /\ c = [r |-> <<>>, j |-> <<>>, sm |-> <<>>, m |-> <<>>, f |-> 0, rt |-> Trace[h].rt] /\ top = [j |-> 0, c |-> 0, r |-> 0] /\ cr = <<>>
Cover(e) == IF e.e = "req" /\ e.ok /\ e.k = "create" THEN Append(cr, <<e.a, e.b>>) ELSE IF e.e = "req" /\ e.ok /\ e.k = "drop" /\ e.r \in DOMAIN c.r THEN SelectSeq(cr, LAMBDA p : p[1] >= c.r[e.r].hi \/ p[2] <= c.r[e.r].lo) ELSE cr
Next == /\ i <= Len(H)
  /\ i' = i + 1 /\ h' = h /\ top' = [TopOf(JobsOf(H[i])) EXCEPT !.c = @] @@ [r |-> Top(DOMAIN RegsOf(H[i]) \cup {top.r}, 0)] /\ cr' = Cover(H[i])
  /\ LET e == H[i]
         hb == J!Hb(c, e.s, e.pt, e.up, [k \in DOMAIN e.m |-> PsOf(e.m[k])])
         q == [e EXCEPT !.ps = ToSet(@)]
         pr == Proc(e)
         rs == RegsOf(e) js == JobsOf(e)
     IN CASE e.e = "hb" -> /\ Check("hb", e.ok /\ rs = hb.r /\ js = hb.j, [m |-> e.m, s |-> e.s, d |-> Diff(hb.r, rs)]) /\ c' = [hb EXCEPT !.r = rs, !.j = js]
          [] e.e = "req" -> /\ Check(e.k \o "-" \o (IF ~e.ok THEN "refused" ELSE IF e.k = "peers" /\ J!PeersUnseen(c, q) /\ rs = c.r /\ js = c.j THEN "ignored" ELSE "accepted"), e.ok = J!Accepts(c, q), [q |-> [x \in {"k", "r", "a", "b", "d", "ps"} |-> e[x]], c |-> c])
                            /\ Check(e.k, IF e.ok = J!Accepts(c, q) THEN ReqOk(e, q) ELSE TRUE, [q |-> [x \in {"k", "r", "a", "b", "d", "ps"} |-> e[x]], r |-> Diff(c.r, rs), j |-> Diff(c.j, js)])
                            /\ c' = [c EXCEPT !.r = rs, !.j = js, !.m = [id \in DOMAIN @ \cap DOMAIN rs |-> @[id]]]
          [] e.e = "proc" -> /\ Check("sent", SentOk(e), [sent |-> e.sent, due |-> [s \in 1..Trace[h].ns |-> {q1.c : q1 \in J!AllDue(c, s)}]])
                             /\ Check("round", rs = pr.r /\ NewOk(js, pr.j, DropShapes) , [sent |-> e.sent, r |-> Diff(pr.r, rs), j |-> Diff(pr.j, js)])
                             /\ c' = [pr EXCEPT !.r = rs, !.j = js]
          [] e.e = "crash" -> Check("crash", rs = c.r /\ js = c.j, [r |-> Diff(c.r, rs), j |-> Diff(c.j, js)]) /\ c' = J!Restart([c EXCEPT !.r = rs, !.j = js])
          [] e.e = "end" -> EndOk(e) /\ c' = c
=============================================================================
