------------------------------ MODULE Region_mc ------------------------------
(* Regions which write, split and merge; store 1 leads and proposes, the others go through the same logs at their own pace. Checked:
   every store always covers every key exactly once, a version of a region means the same range everywhere, and stores which went
   through all logs agree. *)
EXTENDS Region
CONSTANTS Keys, Stores, MaxEnt, MaxReg
VARIABLES log, st, ap, n, nr
vars == <<log, st, ap, n, nr>>
Ids == 1..MaxReg
Ent(r, ver, c) == [r |-> r, ver |-> ver, cs |-> <<c>>]
Put(k, v) == [c |-> "put", x |-> <<<<1, k, 0, v>>>>, del |-> <<>>]
DR(a, b) == [c |-> "dr", cf |-> 1, lo |-> a, hi |-> b]
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
Kind(e) == e.cs[1].c
L == st[1].g
Has(s, r) == r \in DOMAIN st[s].g
Idle(r) == ap[1][r] = Len(log[r])
\* no split or merge on the way: the leader marks both regions until it is over
Free(r) == Has(1, r) /\ L[r].state = "NORMAL" /\ Idle(r) /\ ~\E q \in Ids : Has(1, q) /\ (L[q].state = "MERGING" \/ ~Idle(q)) /\ \E i \in 1..Len(log[q]) : Kind(log[q][i]) = "prep" /\ log[q][i].cs[1].to = r /\ (i > ap[1][q] \/ L[q].state = "MERGING")
Add(r, c) == log' = [log EXCEPT ![r] = Append(@, Ent(r, L[r].ver, c))]
Write == n < MaxEnt /\ n' = n + 1 /\ UNCHANGED <<st, ap, nr>> /\ \E r \in DOMAIN L : L[r].state = "NORMAL" /\
  ((\E k \in L[r].lo..L[r].hi - 1 : Add(r, Put(k, n))) \/ (\E k \in L[r].lo..L[r].hi - 1 : Add(r, DR(k, L[r].hi))))
SplitP == n < MaxEnt /\ n' = n + 1 /\ nr < MaxReg /\ nr' = nr + 1 /\ UNCHANGED <<st, ap>> /\ \E r \in DOMAIN L : Free(r) /\ \E k \in L[r].lo + 1..L[r].hi - 1 :
  Add(r, [c |-> "split", to |-> nr + 1, k |-> k, ver |-> L[r].ver])
MergeP == n < MaxEnt /\ n' = n + 1 /\ UNCHANGED <<st, ap, nr>> /\ \E r, t \in DOMAIN L : r # t /\ Free(r) /\ Free(t) /\ (L[r].lo = L[t].hi \/ L[t].lo = L[r].hi) /\
  \A s \in Stores : Has(s, r) /\ st[s].g[r].ver = L[r].ver /\ st[s].g[r].lo = L[r].lo /\ st[s].g[r].hi = L[r].hi /\
  Add(r, [c |-> "prep", to |-> t, ver |-> L[t].ver, min |-> Min2({ap[s2][r] : s2 \in Stores})])
RECURSIVE Catch(_, _, _, _)
Catch(x, r, i, to) == IF i > to THEN x ELSE Catch(Apply(x, log[r][i]), r, i + 1, to)
ApplyOne(s, r) ==
  /\ Has(s, r) /\ ap[s][r] < Len(log[r])
  /\ LET i == ap[s][r] + 1 e == log[r][i] c == e.cs[1] cnt == Counts(st[s], e) IN
     /\ (Kind(e) = "prep" /\ cnt => Has(s, c.to) /\ st[s].g[c.to].ver >= c.ver)
     /\ IF Kind(e) = "commit" /\ cnt
        THEN /\ Has(s, c.to) /\ ap[s][c.to] >= c.min
             /\ LET x == Catch(st[s], c.to, ap[s][c.to] + 1, c.prep - 1) IN
                /\ st' = [st EXCEPT ![s] = Apply(x, e)]
                /\ ap' = [ap EXCEPT ![s] = [@ EXCEPT ![r] = i, ![c.to] = Max(@, c.prep - 1)]]
             /\ UNCHANGED log
        ELSE LET x == Apply(st[s], e) IN
             /\ st' = [st EXCEPT ![s] = x]
             /\ ap' = [ap EXCEPT ![s][r] = i]
             /\ IF Kind(e) = "prep" /\ s = 1 /\ x.g[r].state = "MERGING" /\ cnt
                THEN log' = [log EXCEPT ![c.to] = Append(@, Ent(c.to, c.ver, [c |-> "commit", to |-> r, ver |-> e.ver, lo |-> x.g[r].lo, hi |-> x.g[r].hi, min |-> c.min, prep |-> i]))]
                ELSE UNCHANGED log
     /\ UNCHANGED <<n, nr>>
Init == /\ log = [r \in Ids |-> <<>>] /\ n = 0 /\ nr = 1 /\ ap = [s \in Stores |-> [r \in Ids |-> 0]]
        /\ st = [s \in Stores |-> [g |-> [r \in {1} |-> Normal(0, Keys, 1)], d |-> <<>>]]
Next == Write \/ SplitP \/ MergeP \/ \E s \in Stores, r \in Ids : ApplyOne(s, r)
Covers == \A s \in Stores : \A k \in 0..Keys - 1 : Covered(st[s], k) = 1
SameMeaning == \A s1, s2 \in Stores : \A r \in Live(st[s1]) \cap Live(st[s2]) : st[s1].g[r].ver = st[s2].g[r].ver => st[s1].g[r].lo = st[s2].g[r].lo /\ st[s1].g[r].hi = st[s2].g[r].hi
All(s) == \A r \in Ids : ap[s][r] = Len(log[r])
Strip(g) == [r \in DOMAIN g |-> IF g[r].state = "TOMBSTONE" THEN Reg(g[r].lo, g[r].hi, 0, "TOMBSTONE") ELSE g[r]]
Agree == \A s1, s2 \in Stores : All(s1) /\ All(s2) => Strip(st[s1].g) = Strip(st[s2].g) /\ st[s1].d = st[s2].d
Done == (\A s \in Stores : All(s)) => \A r \in DOMAIN L : L[r].state # "MERGING"
=============================================================================
