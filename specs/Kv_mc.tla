------------------------------- MODULE Kv_mc -------------------------------
(* Model checking of the versioned store: all histories of a small instance. *)
EXTENDS Kv, TLC
CONSTANTS MaxRev, MaxNow, NW, Leases, Compacts
VARIABLES s, op, r
vars == <<s, op, r>>
Op0 == [o |-> "", k |-> 0, k2 |-> 0, v |-> 0, l |-> 0, pv |-> FALSE, il |-> FALSE, iv |-> FALSE, n |-> 0, id |-> 0, ttl |-> 0, st |-> 0, np |-> FALSE, nd |-> FALSE, wt |-> FALSE]
K == 1..2
Ops(t) ==
     {[Op0 EXCEPT !.o = "put", !.k = k, !.v = 1, !.l = l] : k \in K, l \in {0} \cup Leases}
  \cup {[Op0 EXCEPT !.o = "put", !.k = k, !.v = 1, !.il = TRUE] : k \in K}
  \cup {[Op0 EXCEPT !.o = "del", !.k = k, !.k2 = e] : k \in K, e \in {0, -1}}
  \cup (IF Compacts THEN {[Op0 EXCEPT !.o = "compact", !.k = 1, !.k2 = -1, !.n = n] : n \in 1..t.rev} \cup {[Op0 EXCEPT !.o = "auto", !.n = 1]} ELSE {})
  \cup {[Op0 EXCEPT !.o = "grant", !.id = l, !.ttl = 3] : l \in Leases}
  \cup {[Op0 EXCEPT !.o = x, !.id = l] : x \in {"revoke", "renew"}, l \in Leases}
  \cup {[Op0 EXCEPT !.o = x] : x \in {"task", "stop", "lead", "crash", "reap"}}
  \cup {[Op0 EXCEPT !.o = "tick", !.n = 2]}
  \cup {[Op0 EXCEPT !.o = "fput", !.k = k, !.v = 2, !.l = l] : k \in K, l \in {x.id : x \in t.ls} \cup {0}}
  \cup {[Op0 EXCEPT !.o = "fdel", !.k = k] : k \in K}
  \cup (IF Cardinality(t.w) < NW THEN {[Op0 EXCEPT !.o = "watch", !.id = Cardinality(t.w) + 1, !.k = 1, !.st = st, !.wt = TRUE, !.np = np] : st \in {0} \cup 1..(t.rev + 1), np \in BOOLEAN} ELSE {})
  \cup {[Op0 EXCEPT !.o = "cancel", !.id = w.id] : w \in t.w}
Enabled(t, x) == (x.o \in {"fput", "fdel", "lead"} => ~t.lead) /\ (x.o = "stop" => t.lead) /\ (x.o = "tick" => t.now < MaxNow) /\ (x.o \in {"put", "del", "fput", "fdel", "task", "revoke"} => t.rev < MaxRev)
Init == s = Init0 /\ op = Op0 /\ r = NoRes
Next == \E x \in Ops(s) : Enabled(s, x) /\ \E y \in Outcome(s, x) : s' = y.s /\ op' = x /\ r' = y.r
Spec == Init /\ [][Next]_vars
View == s
\* stored data and index agree: nothing leaks, nothing dangles
Sound ==
  /\ {q.r : q \in s.rv} = UNION {RevsOf(x.g) : x \in s.idx}
  /\ \A x \in s.idx : \A y \in s.idx : x.k = y.k => x = y
  /\ \A q \in s.rv : q.r[1] <= s.rev /\ q.c[1] <= q.r[1] /\ q.ver >= 1
  /\ \A x \in s.idx : \A i \in DOMAIN x.g : \A j \in DOMAIN x.g[i].r : j > 1 => (x.g[i].r[j-1][1] < x.g[i].r[j][1] \/ (x.g[i].r[j-1][1] = x.g[i].r[j][1] /\ x.g[i].r[j-1][2] < x.g[i].r[j][2]))
  /\ \A k \in LiveKeys(s) : LET x == Ix(s, k) q == Rv(s, x.m) IN ~q.d /\ q.k = k /\ q.ver = Last(x.g).v /\ q.c = Last(x.g).c
LeaseInv ==
  /\ \A k \in LiveKeys(s) : Kv(s, k).l # 0 => HasLease(s, Kv(s, k).l)
  /\ Built(s) => {p \in s.lk : HasLease(s, p[1])} = Rebuild(s)
WatchInv == \A w \in s.w : Live(s, w.k) /\ ~w.np => Kv(s, w.k).m <= Max2(w.st, w.r0)
ViewOf(t) == [k \in K |-> IF Live(t, k) THEN Kv(t, k) ELSE NoKv]
Step ==
  /\ s'.rev >= s.rev /\ s'.nl >= s.pnl
  /\ op'.o \in {"compact", "auto", "stop", "lead", "crash", "reap", "grant", "renew", "watch", "cancel", "tick"} => ViewOf(s') = ViewOf(s) /\ s'.rev = s.rev   \* compaction and leadership never change what clients see
  /\ \A k \in K : Live(s, k) /\ Live(s', k) /\ Kv(s', k).m # Kv(s, k).m =>
       (Kv(s', k).c = Kv(s, k).c /\ Kv(s', k).ver = Kv(s, k).ver + 1)
  /\ r'.e # "ok" => ViewOf(s') = ViewOf(s)
  /\ (op'.o = "task" /\ s'.built) => \A x \in s'.ls : x.ttl + x.rn >= s.now
  /\ \A w \in s.w : (~\E w2 \in s'.w : w2.id = w.id) => (s'.lead = FALSE \/ op'.o = "crash" \/ \E f \in r'.fired : f.id = w.id) 
Steps == [][Step]_vars
=============================================================================
