------------------------------- MODULE Region -------------------------------
(* What the log entries of regions mean. A region has an epoch version, a range [lo, hi), a state and a log of its own; the data
   of all regions lies in one store. An entry counts only when it was proposed at the version the region is at when its turn
   comes, and only while the region takes part (NORMAL or SPLITTING). st = [g |-> id -> region, d |-> <<cf, key, ts>> -> value].
   Every store which goes through the logs, in whatever interleaving, with whatever crashes, must come to the same st. *)
EXTENDS Integers, Sequences, FiniteSets
Gone == 999     \* the lower end of the range of a region that was merged away
SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Max(a, b) == IF a > b THEN a ELSE b
Reg(lo, hi, ver, state) == [lo |-> lo, hi |-> hi, ver |-> ver, state |-> state]
Normal(lo, hi, ver) == Reg(lo, hi, ver, "NORMAL")
Takes(r) == r.state \in {"NORMAL", "SPLITTING"}
Restrict(f, S) == [x \in S |-> f[x]]
\* one command of an entry of region id
PutAll(d, xs) == LET K == {<<xs[j][1], xs[j][2], xs[j][3]>> : j \in 1..Len(xs)} IN
  [k \in DOMAIN d \cup K |-> IF k \in K THEN LET j == CHOOSE j \in 1..Len(xs) : <<xs[j][1], xs[j][2], xs[j][3]>> = k IN xs[j][4] ELSE d[k]]
DelAll(d, xs) == LET K == {<<xs[j][1], xs[j][2], xs[j][3]>> : j \in 1..Len(xs)} IN Restrict(d, DOMAIN d \ K)
DelRange(d, cf, lo, hi) == Restrict(d, {k \in DOMAIN d : ~(k[1] = cf /\ k[2] >= lo /\ k[2] < hi)})
Upd(g, k, v) == [x \in DOMAIN g \cup {k} |-> IF x = k THEN v ELSE g[x]]
Split(st, id, c) == LET p == st.g[id] IN
  IF c.ver # p.ver \/ c.k <= p.lo \/ c.k >= p.hi THEN st
  ELSE [st EXCEPT !.g = Upd([@ EXCEPT ![id] = Normal(c.k, p.hi, p.ver + 1)], c.to, Normal(p.lo, c.k, 2))]
Prepare(st, id, c) == IF st.g[c.to].ver > c.ver THEN st ELSE [st EXCEPT !.g[id] = [@ EXCEPT !.state = "MERGING", !.ver = @ + 1]]
Commit(st, id, c) == LET t == st.g[id] s == st.g[c.to] IN
  [st EXCEPT !.g[id] = Normal(IF c.hi = t.lo THEN c.lo ELSE t.lo, IF c.hi = t.lo THEN t.hi ELSE c.hi, Max(c.ver, t.ver) + 1),
             !.g[c.to] = Reg(Gone, s.hi, s.ver + 1, "TOMBSTONE")]
Cmd(st, id, c) ==
  IF c.c = "put" THEN [st EXCEPT !.d = PutAll(DelAll(@, c.del), c.x)]
  ELSE IF c.c = "dr" THEN [st EXCEPT !.d = DelRange(@, c.cf, c.lo, c.hi)]
  ELSE IF c.c = "split" THEN Split(st, id, c)
  ELSE IF c.c = "prep" THEN Prepare(st, id, c)
  ELSE Commit(st, id, c)
RECURSIVE Cmds(_, _, _)
Cmds(st, id, cs) == IF cs = <<>> THEN st ELSE Cmds(Cmd(st, id, cs[1]), id, Tail(cs))
Counts(st, e) == Takes(st.g[e.r]) /\ e.ver = st.g[e.r].ver
Apply(st, e) == IF Counts(st, e) THEN Cmds(st, e.r, e.cs) ELSE st
\* a write must come after what is there already: its timestamp is above every version of its keys
Later(st, c) == c.c = "put" /\ c.ts > 0 => \A j \in 1..Len(c.x) : \A k \in DOMAIN st.d : k[1] = c.x[j][1] /\ k[2] = c.x[j][2] => k[3] < c.x[j][3] \/ (k[3] = c.x[j][3] /\ c.ts = k[3])
Live(st) == {r \in DOMAIN st.g : st.g[r].state # "TOMBSTONE"}
Covered(st, k) == Cardinality({r \in Live(st) : st.g[r].lo <= k /\ k < st.g[r].hi})
=============================================================================
