------------------------------- MODULE Raw_mc -------------------------------
(* Bounded model of the plain key-value interface of one region on two stores: every store has a cache of timestamps
   it fetched from the coordinator, a request reads, takes a timestamp and proposes while it holds the latches of its
   keys, leaders are replaced while requests are under way, and a new leader applies what was committed and raises
   the smallest valid timestamp before it serves. Old versions are collected at a safe point. *)
EXTENDS Raw
CONSTANTS MaxLog, MaxTso
VARIABLES log,    \* committed effects, each with the request and its answer
          full,   \* the versions the whole log makes, had nothing been collected
          ld, ready, ap, \* the leader, whether it serves, how much of the log it has applied
          tso, ca, mv,   \* newest timestamp given by the coordinator; cached timestamps and smallest valid one of each store
          fl,            \* requests under way: [v, ts, add, a]
          sp             \* safe point of collection
vars == <<log, full, ld, ready, ap, tso, ca, mv, fl, sp>>
St == {1, 2}
Now == 10
Req == {[e |-> "put", ks |-> <<k>>, vs |-> <<1>>, xs |-> <<0>>, d |-> 0, at |-> FALSE, now |-> Now] : k \in {1, 2}}
  \cup {[e |-> "bpia", ks |-> <<1, 2>>, vs |-> <<2, 2>>, xs |-> <<0, 0>>, d |-> 0, at |-> b, now |-> Now] : b \in BOOLEAN}
  \cup {[e |-> "cas", ks |-> <<1>>, vs |-> <<x>>, xs |-> <<1>>, d |-> 0, at |-> FALSE, now |-> Now] : x \in {0, 3}}
  \cup {[e |-> "bdel", ks |-> <<2>>, vs |-> <<0>>, xs |-> <<0>>, d |-> 0, at |-> FALSE, now |-> Now]}
RECURSIVE Make(_, _)
Make(l, n) == IF n = 0 THEN {} ELSE Apply(Make(l, n - 1), [add |-> l[n].add, del |-> {}])
Seen == Make(log, ap)
Newest(vs) == IF vs = {} THEN 0 ELSE (CHOOSE x \in vs : \A y \in vs : y.t <= x.t).t
Init == /\ log = <<>> /\ full = {} /\ ld = 1 /\ ready = TRUE /\ ap = 0 /\ tso = 0 /\ ca = [x \in St |-> {}] /\ mv = [x \in St |-> 0] /\ fl = {} /\ sp = 0
Fetch(x) == tso + 2 <= MaxTso /\ ca[x] = {} /\ ca' = [ca EXCEPT ![x] = {tso + 1, tso + 2}] /\ tso' = tso + 2 /\ UNCHANGED <<log, full, ld, ready, ap, mv, fl, sp>>
Begin(v) == /\ ready /\ Len(log) + Cardinality(fl) < MaxLog /\ \A f \in fl : f.x = ld => Rng(f.v.ks) \cap Rng(v.ks) = {}   \* latches
            /\ LET ok == {t \in ca[ld] : t > mv[ld]} IN ok # {} /\ LET t == CHOOSE t \in ok : \A u \in ok : t <= u  e == Effect(Seen, v, t) IN
                 /\ ca' = [ca EXCEPT ![ld] = {u \in ok : u > t}]
                 /\ fl' = IF e.add = {} THEN fl ELSE fl \cup {[x |-> ld, v |-> v, ts |-> t, add |-> e.add, a |-> e.a]}
            /\ UNCHANGED <<log, full, ld, ready, ap, tso, mv, sp>>
\* committed while its leader leads (applied and answered at once), or after it was replaced and before the next one serves
Commit(f) == /\ f \in fl /\ (f.x = ld => ready) /\ (f.x # ld => ~ready)
             /\ log' = Append(log, f) /\ full' = Apply(full, [add |-> f.add, del |-> {}]) /\ fl' = fl \ {f}
             /\ ap' = (IF f.x = ld THEN Len(log) + 1 ELSE ap) /\ UNCHANGED <<ld, ready, tso, ca, mv, sp>>
Lose(f) == f \in fl /\ f.x # ld /\ fl' = fl \ {f} /\ UNCHANGED <<log, full, ld, ready, ap, tso, ca, mv, sp>>
Replace == /\ ready /\ \E n \in 0..Len(log) : ap' = n
           /\ ld' = 3 - ld /\ ready' = FALSE /\ UNCHANGED <<log, full, tso, ca, mv, fl, sp>>
Ready == /\ ~ready /\ \A f \in fl : f.x = ld   \* proposals of the previous leader are decided: its own first entry is behind them
         /\ ready' = TRUE /\ ap' = Len(log) /\ mv' = [mv EXCEPT ![ld] = Max(@, Newest(Make(log, Len(log))))] /\ fl' = {}
         /\ UNCHANGED <<log, full, ld, tso, ca, sp>>
Next == (\E x \in St : Fetch(x)) \/ (\E v \in Req : Begin(v)) \/ (\E f \in fl : Commit(f) \/ Lose(f)) \/ Replace \/ Ready
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* what is collected at p: versions hidden below it, and dead ones
Collect(vs, p) == {x \in vs : x.t > p \/ (~(\E y \in vs : y.k = x.k /\ y.t <= p /\ y.t > x.t) /\ ~Dead(x, Now))}
----------------------------------------------------------------------------
Unique == \A a, b \in 1..Len(log) : a # b => log[a].ts # log[b].ts
\* a later write of a key has the later timestamp, so it is the one that is read
Rising == \A a, b \in 1..Len(log) : a < b => \A x \in log[a].add : \A y \in log[b].add : x.k = y.k => x.t < y.t
\* a conditional write holds at its place in the log
Sound == \A a \in 1..Len(log) : LET e == Effect(Make(log, a - 1), log[a].v, log[a].ts) IN e.add = log[a].add /\ e.a = log[a].a
\* a leader that serves has seen everything
Fresh == ready => ap = Len(log)
\* a read at a timestamp that was given out and used never changes by later writes of the same keys
Stable == ready => \A k \in {1, 2} : \A t \in 1..tso : (\A x \in full : x.k = k => x.t # t) \/ Vis(Seen, k, t, Now) = Vis(full, k, t, Now)
Harmless == fl = {} => \A p \in 0..tso : LET u == Collect(full, p) IN GcSafeStrict(full, u, p, Now) /\ GcDone(u, p, Now)
=============================================================================
