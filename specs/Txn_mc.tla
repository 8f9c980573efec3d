------------------------------- MODULE Txn_mc -------------------------------
(* The commit protocol on top of the region operations of Txn: clients that may stop at any point, readers, and anyone
   resolving what they left behind. Checks what the operations are for: atomicity, finality, snapshot reads, no lost update. *)
EXTENDS Txn
CONSTANTS NT, MaxTs, Kind, Keys2   \* number of transactions, timestamps, "2pc" / "async" / "1pc" / "pess", keys
VARIABLES s, clock, mt, tx, reads, acked
vars == <<s, clock, mt, tx, reads, acked>>
Keys == 1..Keys2
Prim == 1
Op0 == [o |-> "", ks |-> <<>>, s |-> 0, c |-> 0, fu |-> 0, ttl |-> 1, sz |-> 1, mc |-> 0, maxc |-> 0, cur |-> 0, lim |-> 0, p |-> Prim, a |-> 0, b |-> 4,
        onepc |-> FALSE, force |-> FALSE, rine |-> TRUE, rv |-> FALSE, rc |-> FALSE, rl |-> <<>>, mu |-> <<>>, pc |-> <<>>, fc |-> <<>>, ex |-> <<>>, sec |-> <<>>, ti |-> <<>>, mono |-> FALSE, mt |-> 0]
Init == /\ s = [l |-> {}, w |-> {}, d |-> {}] /\ clock = 1 /\ mt = 0 /\ reads = {} /\ acked = {}
        /\ tx = [t \in 1..NT |-> [st |-> 0, fu |-> 0, done |-> {}, c |-> 0, phase |-> "new", min |-> 0]]
\* runs an operation on the region
Do(op) == LET o == Outcome(s, [op EXCEPT !.mt = mt]) IN o
Touch(op) == mt' = AccessTs([op EXCEPT !.mt = mt])
Tick == clock < MaxTs /\ clock' = clock + 1
Begin(t) == /\ tx[t].phase = "new" /\ Tick /\ tx' = [tx EXCEPT ![t].st = clock, ![t].fu = clock, ![t].phase = IF Kind = "pess" THEN "lock" ELSE "pre"] /\ UNCHANGED <<s, mt, reads, acked>>
V(t) == IF t % 2 = 1 THEN 1 ELSE Long
\* pessimistic: lock, on conflict take a newer for-update timestamp and try again
Lock(t) == \E k \in Keys \ tx[t].done : tx[t].phase = "lock" /\
   LET op == [Op0 EXCEPT !.o = "plock", !.s = tx[t].st, !.fu = tx[t].fu, !.mu = <<[op |-> "L", k |-> k, v |-> 0]>>]  o == Do(op) IN
   /\ s' = o.s /\ Touch(op) /\ UNCHANGED <<reads, acked>>
   /\ IF o.r.e = 0 /\ o.r.t = <<>> THEN /\ tx' = [tx EXCEPT ![t].done = IF @ \cup {k} = Keys THEN {} ELSE @ \cup {k}, ![t].phase = IF tx[t].done \cup {k} = Keys THEN "pre" ELSE "lock"] /\ UNCHANGED clock
      ELSE Tick /\ tx' = [tx EXCEPT ![t].fu = clock]
Pre(t) == \E k \in Keys \ tx[t].done : tx[t].phase = "pre" /\
   LET ks == IF Kind = "1pc" THEN [i \in 1..Keys2 |-> i] ELSE <<k>>
       op == [Op0 EXCEPT !.o = "prewrite", !.s = tx[t].st, !.mu = [i \in DOMAIN ks |-> [op |-> IF t = 2 /\ ks[i] = 2 THEN "D" ELSE "P", k |-> ks[i], v |-> IF t = 2 /\ ks[i] = 2 THEN 0 ELSE V(t)]],
                         !.onepc = (Kind = "1pc"), !.sec = IF Kind = "async" THEN [i \in 1..(Keys2 - 1) |-> i + 1] ELSE <<>>, !.mc = IF Kind = "2pc" THEN tx[t].st + 1 ELSE 0,
                         !.pc = IF Kind = "pess" THEN [i \in DOMAIN ks |-> 1] ELSE <<>>]
       o == Do(op) IN
   /\ (k = Prim \/ Prim \in tx[t].done)
   /\ s' = o.s /\ Touch(op) /\ UNCHANGED <<clock, reads>>
   /\ IF o.r.e = 0 /\ o.r.t = <<>> /\ o.r.ae = <<>> THEN
         IF Kind = "1pc" /\ o.r.c # 0 THEN /\ tx' = [tx EXCEPT ![t].phase = "end", ![t].c = o.r.c] /\ acked' = acked \cup {t}
         ELSE LET d == tx[t].done \cup SetOf(ks) IN
           /\ tx' = [tx EXCEPT ![t].done = d, ![t].min = Max(@, o.r.m), ![t].phase = IF d = Keys THEN "ts" ELSE "pre"]
           /\ acked' = IF d = Keys /\ Kind = "async" /\ o.r.m # 0 THEN acked \cup {t} ELSE acked
      ELSE tx' = [tx EXCEPT ![t].phase = "abort"] /\ UNCHANGED acked
Ts(t) == /\ tx[t].phase = "ts" /\ UNCHANGED <<s, mt, reads, acked>>
         /\ IF Kind = "async" /\ tx[t].min # 0 THEN tx' = [tx EXCEPT ![t].c = tx[t].min, ![t].phase = "com", ![t].done = {}] /\ UNCHANGED clock
            ELSE Tick /\ tx' = [tx EXCEPT ![t].c = clock, ![t].phase = "com", ![t].done = {}]
Com(t) == \E k \in Keys \ tx[t].done : tx[t].phase = "com" /\ (k = Prim \/ Prim \in tx[t].done \/ (Kind = "async" /\ tx[t].min # 0)) /\
   LET op == [Op0 EXCEPT !.o = "commit", !.s = tx[t].st, !.c = tx[t].c, !.ks = <<k>>]  o == Do(op) IN
   /\ s' = o.s /\ Touch(op) /\ UNCHANGED <<reads>>
   /\ IF o.r.e = 0 /\ o.r.t = <<>> THEN /\ tx' = [tx EXCEPT ![t].done = @ \cup {k}] /\ acked' = acked \cup {t} /\ UNCHANGED clock
      ELSE /\ UNCHANGED acked
           /\ IF o.r.t # <<>> /\ o.r.t[1].y = "ce" THEN Tick /\ tx' = [tx EXCEPT ![t].c = clock]
              ELSE tx' = [tx EXCEPT ![t].phase = IF k = Prim THEN "abort" ELSE "end"] /\ UNCHANGED clock
Abort(t) == tx[t].phase = "abort" /\
   LET op == [Op0 EXCEPT !.o = IF Kind = "pess" THEN "prb" ELSE "rollback", !.s = tx[t].st, !.fu = tx[t].fu, !.ks = [i \in 1..Keys2 |-> i]]  o == Do(op) IN
   s' = o.s /\ Touch(op) /\ tx' = [tx EXCEPT ![t].phase = "end"] /\ UNCHANGED <<clock, reads, acked>>
Read == \E k \in Keys, ts \in 1..(clock - 1) :
   LET op == [Op0 EXCEPT !.o = "get", !.s = ts, !.ks = <<k>>]  o == Do(op) IN
   /\ o.r.t = <<>> /\ Cardinality(reads) < 2
   /\ reads' = reads \cup {<<k, ts, o.r.kv[1].v>>} /\ Touch(op) /\ UNCHANGED <<s, clock, tx, acked>>
\* anybody who meets a lock: ask the primary (time may have run out), then finish the transaction the same way
Resolver == \E l \in s.l : \E cur \in {0, 2} : \E caller \in {clock - 1} :
   LET op == [Op0 EXCEPT !.o = "cts", !.s = l.t, !.p = l.p, !.c = caller, !.cur = cur]  o == Do(op)
       fin(c) == Outcome(o.s, [Op0 EXCEPT !.o = "resolve", !.s = l.t, !.c = c, !.ks = <<l.k>>])
   IN caller > 0 /\ UNCHANGED <<clock, tx, reads, acked>> /\
      IF o.r.c # 0 THEN s' = fin(o.r.c).s /\ mt' = Max(AccessTs([op EXCEPT !.mt = mt]), o.r.c)
      ELSE IF o.r.act \in {"TTLExpireRollback", "LockNotExistRollback"} THEN s' = fin(0).s /\ Touch(op)
      ELSE IF o.r.t # <<>> /\ o.r.t[1].y = "locked" /\ o.r.t[1].l.as /\ cur = 2 THEN
           \* async commit: all secondaries locked => committed at the largest minimum, one missing => rolled back
           LET pl == o.r.t[1].l
               q == Outcome(o.s, [Op0 EXCEPT !.o = "csl", !.s = l.t, !.ks = pl.sec])
               c == IF q.r.c # 0 THEN q.r.c ELSE IF Len(q.r.locks) = Len(pl.sec) /\ \A i \in DOMAIN q.r.locks : q.r.locks[i].as
                    THEN Max(pl.mc, LET ms == {q.r.locks[i].mc : i \in DOMAIN q.r.locks} IN IF ms = {} THEN 0 ELSE CHOOSE m \in ms : \A n \in ms : n <= m) ELSE 0
               e1 == Outcome(q.s, [Op0 EXCEPT !.o = "resolve", !.s = l.t, !.c = c, !.ks = <<pl.k>>])
               e2 == Outcome(e1.s, [Op0 EXCEPT !.o = "resolve", !.s = l.t, !.c = c, !.ks = pl.sec])
           IN s' = e2.s /\ mt' = Max(Max(mt, caller), c)
      ELSE s' = o.s /\ Touch(op)
Next == Read \/ Resolver \/ \E t \in 1..NT : Begin(t) \/ Lock(t) \/ Pre(t) \/ Ts(t) \/ Com(t) \/ Abort(t)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
OneLock == \A k \in Keys : Cardinality({l \in s.l : l.k = k}) <= 1
WellFormed == \A x, y \in s.w : (x.k = y.k /\ x.s = y.s) => x = y
HasValue == \A x \in s.w : (x.op = "P" /\ x.v = 0) => DataOf(s, x.k, x.s) # 0
Atomic == \A x, y \in s.w : (x.s = y.s /\ x.op # "R" /\ y.op # "R") => x.c = y.c
NoMix == \A x, y \in s.w : (x.s = y.s /\ x.op # "R") => y.op # "R"
NoLostUpdate == \A x, y \in s.w : (x.k = y.k /\ x # y /\ x.op # "R" /\ y.op # "R" /\ x.c <= y.c) => (x.c <= y.s \/ Kind = "pess")
ReadsStable == \A r \in reads : ReadAt(s, r[1], r[2]) = r[3]
\* a transaction its client was told about stays committed: on every key it is committed or still locked
Durable == \A t \in acked : \A k \in Keys : Committed(s, k, tx[t].st).c # 0 \/ LockAt(s, k).t = tx[t].st
Inv == OneLock /\ WellFormed /\ HasValue /\ Atomic /\ NoMix /\ NoLostUpdate /\ ReadsStable /\ Durable
=============================================================================
