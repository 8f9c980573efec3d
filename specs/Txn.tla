-------------------------------- MODULE Txn --------------------------------
(* Percolator-style transactions on one region: a lock table, commit records and long values per key.
   State  s = [l |-> set of locks (at most one per key), w |-> set of commit / rollback records, d |-> set of long values].
   Every service operation is a function  Outcome(s, op)  giving the set of allowed [s |-> next state, r |-> result].
   Values: 0 none, 1 2 short (kept in the lock and the commit record), 3 long (kept aside under the start timestamp). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
EILLEGAL == 20069
EVALUEEMPTY == 20184
Long == 3
Max(a, b) == IF a >= b THEN a ELSE b
SetOf(q) == {q[i] : i \in DOMAIN q}
NoLock == [k |-> 0, p |-> 0, t |-> 0, fu |-> 0, ttl |-> 0, sz |-> 0, ty |-> "N", v |-> 0, mc |-> 0, as |-> FALSE, sec |-> <<>>, ex |-> 0]
NoWrite == [k |-> 0, c |-> 0, s |-> 0, op |-> "N", v |-> 0]
LockAt(s, k) == IF \E l \in s.l : l.k = k THEN CHOOSE l \in s.l : l.k = k ELSE NoLock
Newest(W) == IF W = {} THEN NoWrite ELSE CHOOSE x \in W : \A y \in W : y.c <= x.c
\* newest put or delete with lo < commit timestamp <= hi
Latest(s, k, lo, hi) == Newest({x \in s.w : x.k = k /\ x.op \in {"P", "D"} /\ x.c > lo /\ x.c <= hi})
Inf == 1000000
Committed(s, k, t) == Newest({x \in s.w : x.k = k /\ x.op \in {"P", "D"} /\ x.s = t /\ x.c >= t})
RolledBack(s, k, t) == \E x \in s.w : x.k = k /\ x.c = t /\ x.s = t /\ x.op = "R"
DataOf(s, k, t) == IF \E x \in s.d : x.k = k /\ x.s = t THEN (CHOOSE x \in s.d : x.k = k /\ x.s = t).v ELSE 0
ValueOf(s, x) == IF x.op # "P" THEN 0 ELSE IF x.v # 0 THEN x.v ELSE DataOf(s, x.k, x.s)
ReadAt(s, k, ts) == ValueOf(s, Latest(s, k, 0, ts))
\* updates
PutLock(s, l) == [s EXCEPT !.l = {x \in @ : x.k # l.k} \cup {l}]
DelLock(s, k) == [s EXCEPT !.l = {x \in @ : x.k # k}]
PutWrite(s, x) == [s EXCEPT !.w = {y \in @ : ~(y.k = x.k /\ y.c = x.c)} \cup {x}]
PutData(s, k, t, v) == [s EXCEPT !.d = {y \in @ : ~(y.k = k /\ y.s = t)} \cup {[k |-> k, s |-> t, v |-> v]}]
DelData(s, k, t) == [s EXCEPT !.d = {y \in @ : ~(y.k = k /\ y.s = t)}]
\* a rollback marker never replaces a commit record of another transaction that happens to be at that timestamp
MarkRollback(s, k, t) == IF \E x \in s.w : x.k = k /\ x.c = t /\ x.op # "R" THEN s
                         ELSE PutWrite(s, [k |-> k, c |-> t, s |-> t, op |-> "R", v |-> 0])
RollbackKey(s, k, t) == LET l == LockAt(s, k) u == MarkRollback(DelLock(s, k), k, t) IN
   IF l.v = 0 THEN DelData(u, k, t) ELSE u
CommitKey(s, l, c) == LET u == DelLock(s, l.k) IN
   IF l.ty = "A" THEN u ELSE PutWrite(u, [k |-> l.k, c |-> c, s |-> l.t, op |-> l.ty, v |-> l.v])
RECURSIVE Fold(_, _, _)
Fold(F(_, _), a, q) == IF q = <<>> THEN a ELSE Fold(F, F(a, Head(q)), Tail(q))
\* results
R0 == [e |-> 0, t |-> <<>>, kv |-> <<>>, ae |-> <<>>, c |-> 0, m |-> 0, ttl |-> 0, act |-> "NoAction", locks |-> <<>>, pg |-> <<>>]
Err(s, e) == [s |-> s, r |-> [R0 EXCEPT !.e = e]]
Locked(l) == [y |-> "locked", l |-> l]
WC(why, st, c, k) == [y |-> "wc", why |-> why, s |-> st, c |-> c, k |-> k]
NF(st) == [y |-> "nf", s |-> st]
T(s, x) == [s |-> s, r |-> [R0 EXCEPT !.t = <<x>>]]
Done(s) == [s |-> s, r |-> R0]
----------------------------------------------------------------------------
(* Reading. A lock of another transaction hides newer data: a reader that could see its outcome has to wait for it. *)
ConflictR(l, rc, ts, rl) ==
  /\ l.t # 0 /\ l.t \notin SetOf(rl) /\ l.mc <= ts
  /\ IF ~rc THEN IF l.fu > 0 THEN l.fu < ts ELSE l.t < ts
     ELSE l.fu > 0 /\ l.ty # "L" /\ l.fu < ts
ReadTs(op) == IF op.rc THEN Inf ELSE op.s
Get(s, op) == LET l == LockAt(s, op.ks[1]) IN
  IF ConflictR(l, op.rc, op.s, op.rl) THEN T(s, Locked(l))
  ELSE [s |-> s, r |-> [R0 EXCEPT !.kv = <<[k |-> op.ks[1], v |-> ReadAt(s, op.ks[1], ReadTs(op))]>>]]
BatchGet(s, op) ==
  LET F(r, k) == IF r.t # <<>> THEN r ELSE LET l == LockAt(s, k) IN
        IF ConflictR(l, op.rc, op.s, op.rl) THEN [r EXCEPT !.t = <<Locked(l)>>]
        ELSE [r EXCEPT !.kv = Append(@, [k |-> k, v |-> ReadAt(s, k, ReadTs(op))])] IN
  [s |-> s, r |-> Fold(F, R0, op.ks)]
(* A scan delivers, page by page, the visible pairs of the range in key order, of one snapshot, up to the first lock that conflicts. *)
ScanKeys(op) == SelectSeq(<<1, 2, 3>>, LAMBDA k : k >= op.a /\ k < op.b)
ScanAll(s, op) == BatchGet(s, [op EXCEPT !.ks = ScanKeys(op)]).r
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
PagesOk(pg, want, t, lim) ==
  LET n == Len(pg) IN
  /\ n > 0
  /\ \A i \in 1..n : Len(pg[i].kv) <= lim
  /\ \A i \in 1..(n-1) : pg[i].more /\ pg[i].t = <<>> /\ pg[i].kv # <<>>
  /\ pg[n].t = t
  /\ (t = <<>>) => ~pg[n].more
  /\ Concat([i \in 1..n |-> pg[i].kv]) = want
ScanOk(s, op, pg) == LET a == ScanAll(s, op) IN PagesOk(pg, SelectSeq(a.kv, LAMBDA x : x.v # 0), a.t, op.lim)
ScanLockOk(s, op, pg) ==
  LET ks == SelectSeq(ScanKeys(op), LAMBDA k : LockAt(s, k).t # 0 /\ LockAt(s, k).t < op.s) IN
  PagesOk(pg, [i \in DOMAIN ks |-> LockAt(s, ks[i])], <<>>, op.lim)
----------------------------------------------------------------------------
(* Pessimistic locks: all keys of a request or none. *)
PLock(s, op) ==
  LET F(a, m) == LET l == LockAt(s, m.k)  W == Latest(s, m.k, IF op.rv THEN 0 ELSE op.s, Inf)
                     new == [NoLock EXCEPT !.k = m.k, !.p = op.p, !.t = op.s, !.fu = op.fu, !.ttl = op.ttl, !.ty = "L", !.ex = m.v]
                     val(ts) == LET x == Latest(s, m.k, 0, ts) IN IF op.rv THEN <<[k |-> m.k, v |-> ValueOf(s, x)]>> ELSE <<>>
                 IN
      IF a.e # 0 THEN a
      ELSE IF m.op # "L" THEN [a EXCEPT !.e = EILLEGAL]
      ELSE IF l.t # 0 THEN
        IF l.fu = 0 \/ l.t # op.s \/ l.fu > op.fu THEN [a EXCEPT !.t = Append(@, Locked(l))]
        ELSE IF l.fu = op.fu THEN [a EXCEPT !.kv = @ \o val(op.fu)]
        ELSE [a EXCEPT !.kv = @ \o val(op.fu),
                       !.ls = Append(@, [l EXCEPT !.p = op.p, !.t = op.s, !.fu = op.fu, !.ttl = op.ttl, !.ty = "L", !.ex = m.v])]
      ELSE IF W.c >= op.fu THEN [a EXCEPT !.t = Append(@, WC("PessimisticRetry", op.s, W.c, m.k))]
      ELSE [a EXCEPT !.ls = Append(@, new), !.kv = @ \o val(op.fu)]
      z == Fold(F, [e |-> 0, t |-> <<>>, kv |-> <<>>, ls |-> <<>>], op.mu)
  IN IF z.e # 0 THEN Err(s, z.e)
     ELSE [s |-> IF z.t # <<>> THEN s ELSE Fold(LAMBDA u, l : PutLock(u, l), s, z.ls),
           r |-> [R0 EXCEPT !.t = z.t, !.kv = z.kv]]
PRollback(s, op) ==
  LET F(a, k) == LET l == LockAt(s, k) IN
        IF l.t = 0 THEN a
        ELSE IF l.ty # "L" \/ l.t # op.s \/ l.fu > op.fu THEN [a EXCEPT !.t = Append(@, Locked(l))]
        ELSE [a EXCEPT !.ks = Append(@, k)]
      z == Fold(F, [t |-> <<>>, ks |-> <<>>], op.ks)
  IN [s |-> IF z.t # <<>> THEN s ELSE Fold(LAMBDA u, k : DelLock(u, k), s, z.ks), r |-> [R0 EXCEPT !.t = z.t]]
----------------------------------------------------------------------------
(* First phase. mt = largest timestamp at which this region has been read. *)
PwInit(op) == [i |-> 1, e |-> 0, t |-> <<>>, ae |-> <<>>, one |-> op.onepc, as |-> op.sec # <<>>, fin |-> 0,
               ls |-> <<>>, ones |-> <<>>, ds |-> <<>>, stop |-> FALSE, com |-> 0]
FcAt(op, i) == IF op.fc # <<>> THEN op.fc[i] ELSE 0
PwMut(s, op, a) ==
  LET i == a.i  m == op.mu[i]  k == m.k  l == LockAt(s, k)
      chk == op.pc # <<>> /\ op.pc[i] = 1
      com == Committed(s, k, op.s)
      W == Latest(s, k, 0, Inf)
      nx == [a EXCEPT !.i = @ + 1]
      lockedOr == IF com.c # 0 THEN [a EXCEPT !.stop = TRUE, !.com = com.c] ELSE [nx EXCEPT !.t = Append(@, Locked(l))]
      own == l.t # 0 /\ l.t = op.s
      rep == own /\ l.ty # "L"
      gone == (l.t # 0 /\ ~own) \/ (~chk /\ l.ty = "L")
      ftsBad == chk /\ own /\ l.ty = "L" /\ FcAt(op, i) # 0 /\ l.fu # FcAt(op, i)
      \* the lock this mutation wants
      base == [l EXCEPT !.p = op.p, !.t = op.s, !.k = k, !.ttl = op.ttl, !.sz = op.sz, !.mc = Max(@, op.mc), !.ty = IF m.op = "A" THEN "P" ELSE m.op,
                        !.v = IF m.op \in {"P", "A"} /\ m.v # Long THEN m.v ELSE @,
                        !.ex = IF op.ex # <<>> /\ op.ex[i] # 0 THEN op.ex[i] ELSE @,
                        !.as = @ \/ a.as, !.sec = IF a.as /\ k = op.p THEN op.sec ELSE @]
      \* commit timestamp lower bound of async / one-phase commit: above every read served so far, and above start and for-update
      min == Max(Max(op.mt, op.s), FcAt(op, i)) + 1
      fin == IF op.maxc # 0 /\ min > op.maxc THEN 0 ELSE Max(min, base.mc)
      wants == a.one \/ a.as
      fall == wants /\ fin = 0
      lk == IF ~wants THEN base ELSE IF fall THEN [base EXCEPT !.as = FALSE, !.sec = <<>>] ELSE [base EXCEPT !.mc = fin]
      one2 == a.one /\ ~fall   as2 == a.as /\ ~fall
      tmp == IF m.op = "C" THEN (IF wants THEN op.s + 1 ELSE 0) ELSE IF wants THEN fin ELSE 0
      fin2 == IF one2 \/ as2 THEN Max(a.fin, tmp) ELSE 0
      finC == IF wants THEN Max(a.fin, tmp) ELSE 0
  IN IF gone THEN lockedOr
     ELSE IF ftsBad THEN [nx EXCEPT !.t = Append(@, Locked(l))]
     ELSE IF RolledBack(s, k, op.s) THEN [a EXCEPT !.stop = TRUE, !.t = Append(@, WC("SelfRolledBack", op.s, op.s, k))]
     ELSE IF W.c >= op.s /\ ~chk THEN
            IF com.c # 0 THEN [a EXCEPT !.stop = TRUE, !.com = com.c]
            ELSE [a EXCEPT !.stop = TRUE, !.t = Append(@, WC("Optimistic", op.s, W.c, k))]
     ELSE IF m.op = "A" /\ W.op = "P" THEN [a EXCEPT !.stop = TRUE, !.ae = Append(@, k)]
     ELSE IF m.op = "C" /\ chk THEN [a EXCEPT !.stop = TRUE, !.e = EILLEGAL]
     ELSE LET b == IF m.op = "C" /\ W.op = "P" THEN [nx EXCEPT !.ae = Append(@, k)] ELSE nx IN
       IF rep THEN [b EXCEPT !.one = FALSE, !.as = FALSE]
       ELSE IF m.op \in {"P", "A"} /\ m.v = 0 THEN [a EXCEPT !.stop = TRUE, !.e = EVALUEEMPTY]
       ELSE IF m.op = "C" THEN [b EXCEPT !.fin = finC]
       ELSE [b EXCEPT !.fin = fin2, !.one = one2, !.as = as2,
                      !.ds = IF m.v = Long THEN Append(@, k) ELSE @,
                      !.ls = IF one2 THEN @ ELSE Append(@, lk),
                      !.ones = IF one2 THEN Append(@, [l |-> lk, v |-> m.v, chk |-> chk]) ELSE @]
RECURSIVE PwLoop(_, _, _)
PwLoop(s, op, a) == IF a.stop \/ a.i > Len(op.mu) THEN a ELSE PwLoop(s, op, PwMut(s, op, a))
Prewrite(s, op) ==
  LET z == PwLoop(s, op, PwInit(op))
      r == [R0 EXCEPT !.t = z.t, !.ae = z.ae, !.m = IF z.com # 0 THEN (IF z.as THEN z.com ELSE 0) ELSE IF z.as THEN z.fin ELSE 0,
                      !.c = IF z.com # 0 /\ z.one THEN z.com ELSE 0]
      sd == Fold(LAMBDA u, k : PutData(u, k, op.s, Long), s, z.ds)
      O1(u, x) == LET v == IF x.l.ty = "A" THEN u ELSE PutWrite(u, [k |-> x.l.k, c |-> z.fin, s |-> op.s, op |-> x.l.ty, v |-> IF x.l.v # 0 THEN x.v ELSE 0])
                  IN IF x.chk THEN DelLock(v, x.l.k) ELSE v
  IN IF z.e # 0 THEN Err(s, z.e)
     ELSE IF z.com # 0 \/ z.t # <<>> \/ z.ae # <<>> THEN [s |-> s, r |-> r]
     ELSE IF z.one THEN [s |-> Fold(O1, sd, z.ones), r |-> [r EXCEPT !.c = z.fin]]
     ELSE [s |-> Fold(LAMBDA u, l : PutLock(u, l), sd, z.ls \o [i \in DOMAIN z.ones |-> z.ones[i].l]), r |-> r]
----------------------------------------------------------------------------
(* Second phase: all keys of a request or none. *)
Commit(s, op) ==
  LET F(a, k) == LET l == LockAt(s, k) IN
        IF a.t # <<>> THEN a
        ELSE IF l.t = op.s THEN
               IF l.ty = "L" THEN [a EXCEPT !.t = <<Locked(l)>>]
               ELSE IF l.mc > op.c THEN [a EXCEPT !.t = <<[y |-> "ce", s |-> op.s, c |-> op.c, k |-> k, m |-> l.mc]>>]
               ELSE [a EXCEPT !.ls = Append(@, l)]
        ELSE IF \E x \in s.w : x.k = k /\ x.s = op.s /\ x.op \in {"P", "D"} /\ x.c = op.c THEN a
        ELSE IF RolledBack(s, k, op.s) THEN [a EXCEPT !.t = <<WC("SelfRolledBack", op.s, op.s, k)>>]
        ELSE IF l.t # 0 THEN [a EXCEPT !.t = <<Locked(l)>>]
        ELSE [a EXCEPT !.t = <<NF(op.s)>>]
      z == Fold(F, [t |-> <<>>, ls |-> <<>>], op.ks)
  IN IF op.c <= op.s THEN Err(s, EILLEGAL)
     ELSE IF z.t # <<>> THEN T(s, z.t[1])
     ELSE Done(Fold(LAMBDA u, l : CommitKey(u, l, op.c), s, z.ls))
Rollback(s, op) ==
  LET F(a, k) == LET l == LockAt(s, k) IN
        IF a.t # <<>> THEN a
        ELSE IF l.t # 0 /\ (l.t # op.s \/ l.ty = "L") THEN [a EXCEPT !.t = <<Locked(l)>>]
        ELSE IF l.t # 0 THEN [a EXCEPT !.s = RollbackKey(@, k, op.s)]
        ELSE IF RolledBack(s, k, op.s) \/ Committed(s, k, op.s).c # 0 THEN a
        ELSE [a EXCEPT !.s = MarkRollback(@, k, op.s)]
      z == Fold(F, [t |-> <<>>, s |-> s], op.ks)
  IN IF z.t # <<>> THEN T(s, z.t[1]) ELSE Done(z.s)
----------------------------------------------------------------------------
(* Deciding the fate of a transaction from its primary key. *)
CheckStatus(s, op) ==
  LET l == LockAt(s, op.p)  com == Committed(s, op.p, op.s)  R == R0 IN
  IF op.c = 0 THEN Err(s, EILLEGAL)
  ELSE IF l.t = op.s THEN
    LET t == IF l.ty = "L" THEN <<Locked(l)>> ELSE <<>> IN
    IF l.k # l.p THEN T(s, [y |-> "mm", l |-> l])
    ELSE IF l.as /\ ~op.force THEN T(s, Locked(l))
    ELSE IF l.ttl >= op.cur THEN
       IF l.mc < op.c THEN [s |-> PutLock(s, [l EXCEPT !.mc = op.c]), r |-> [R EXCEPT !.t = t, !.ttl = l.ttl, !.act = "MinCommitTSPushed"]]
       ELSE [s |-> s, r |-> [R EXCEPT !.t = t, !.ttl = l.ttl]]
    ELSE [s |-> RollbackKey(s, op.p, op.s), r |-> [R EXCEPT !.t = t, !.act = "TTLExpireRollback"]]
  ELSE IF RolledBack(s, op.p, op.s) THEN [s |-> s, r |-> [R EXCEPT !.act = "LockNotExistRollback"]]
  ELSE IF com.c # 0 THEN [s |-> s, r |-> [R EXCEPT !.c = com.c, !.act = "LockNotExistDoNothing"]]
  ELSE IF op.rine THEN [s |-> MarkRollback(s, op.p, op.s), r |-> [R EXCEPT !.act = "LockNotExistRollback"]]
  ELSE T(s, NF(op.s))
CheckSecondaries(s, op) ==
  LET F(a, k) == LET l == LockAt(s, k)  com == Committed(s, k, op.s) IN
        IF a.end THEN a
        ELSE IF l.t = op.s THEN
               IF l.ty = "L" THEN [a EXCEPT !.end = TRUE, !.r.t = <<Locked(l)>>]
               ELSE [a EXCEPT !.r.locks = Append(@, l)]
        ELSE IF RolledBack(s, k, op.s) THEN [a EXCEPT !.end = TRUE]
        ELSE IF com.c # 0 THEN [a EXCEPT !.end = TRUE, !.r.c = com.c]
        ELSE [a EXCEPT !.end = TRUE, !.s = MarkRollback(@, k, op.s), !.r.t = <<NF(op.s)>>]
      z == Fold(F, [end |-> FALSE, s |-> s, r |-> R0], op.ks)
  IN [s |-> z.s, r |-> z.r]
ResolveOne(s, ks, st, c) ==   \* [s, t]
  LET F(a, k) == LET l == LockAt(s, k) IN
        IF a.t # <<>> \/ l.t # st THEN a
        ELSE IF l.ty = "L" THEN [a EXCEPT !.t = <<Locked(l)>>]
        ELSE [a EXCEPT !.s = IF c > 0 THEN CommitKey(@, l, c) ELSE RollbackKey(@, k, st)]
      z == Fold(F, [t |-> <<>>, s |-> s], ks)
  IN IF z.t # <<>> THEN [s |-> s, t |-> z.t] ELSE z
HeartBeat(s, op) ==
  LET l == LockAt(s, op.p) IN
  IF l.t # op.s THEN T(s, NF(op.s))
  ELSE IF l.ttl >= op.ttl THEN [s |-> s, r |-> [R0 EXCEPT !.ttl = l.ttl]]
  ELSE [s |-> PutLock(s, [l EXCEPT !.ttl = op.ttl]), r |-> [R0 EXCEPT !.ttl = op.ttl]]
Resolve(s, op) ==
  IF op.ti = <<>> THEN
    LET z == ResolveOne(s, op.ks, op.s, op.c) IN   \* without keys and transactions there is nothing to do
    IF z.t # <<>> THEN T(s, z.t[1]) ELSE Done(z.s)
  ELSE LET F(a, x) == IF a.t # <<>> THEN a ELSE ResolveOne(a.s, <<1, 2, 3>>, x.s, x.c)
           z == Fold(F, [t |-> <<>>, s |-> s], op.ti) IN
       IF z.t # <<>> THEN T(z.s, z.t[1]) ELSE Done(z.s)
----------------------------------------------------------------------------
(* Garbage collection at a safe point removes versions only; no read at or above the safe point may change. *)
GcOnly(s, u, sp) ==
  /\ u.l = s.l /\ u.w \subseteq s.w /\ u.d \subseteq s.d
  /\ \A x \in s.w : x.c > sp => x \in u.w
  /\ \A x \in s.d \ u.d : (\E y \in s.w : y.k = x.k /\ y.s = x.s /\ y.c <= sp) /\ ~\E y \in u.w : y.k = x.k /\ y.s = x.s /\ y.op = "P" /\ y.v = 0
Stamps(s, k, sp) == {sp} \cup {x.c : x \in {y \in s.w : y.k = k /\ y.c >= sp}}
Lost(s, u, sp) == {<<k, ts>> \in {1, 2, 3} \X (0..40) : ts \in Stamps(s, k, sp) /\ ReadAt(u, k, ts) # ReadAt(s, k, ts)}
\* known finding: the version a reader between the safe point and a newer version needs is removed
Oldest(s, k, sp) == LET W == {x.c : x \in {y \in s.w : y.k = k /\ y.op \in {"P", "D"} /\ y.c > sp}} IN IF W = {} THEN 0 ELSE CHOOSE c \in W : \A d \in W : c <= d
Known(s, x, sp) == Oldest(s, x[1], sp) # 0 /\ x[2] < Oldest(s, x[1], sp)
GcSafe(s, u, sp) == GcOnly(s, u, sp) /\ \A x \in Lost(s, u, sp) : Known(s, x, sp)
GcSafeStrict(s, u, sp) == GcOnly(s, u, sp) /\ Lost(s, u, sp) = {}
GcDone(s, u, sp) == \A x \in u.w : x.c <= sp => x.op = "P" /\ ~\E y \in u.w : y.k = x.k /\ y.c <= sp /\ y.c > x.c
----------------------------------------------------------------------------
Outcome(s, op) ==
  CASE op.o = "get" -> Get(s, op)
    [] op.o = "bget" -> BatchGet(s, op)
    [] op.o = "plock" -> PLock(s, op)
    [] op.o = "prb" -> PRollback(s, op)
    [] op.o = "prewrite" -> Prewrite(s, op)
    [] op.o = "commit" -> Commit(s, op)
    [] op.o = "rollback" -> Rollback(s, op)
    [] op.o = "cts" -> CheckStatus(s, op)
    [] op.o = "csl" -> CheckSecondaries(s, op)
    [] op.o = "resolve" -> Resolve(s, op)
    [] op.o = "hb" -> HeartBeat(s, op)
    [] op.o = "gc" -> Done(s)
    [] OTHER -> Done(s)
\* largest timestamp the region remembers having served
AccessTs(op) == Max(op.mt, CASE op.o \in {"get", "bget", "scan", "csl"} -> op.s
                             [] op.o = "commit" -> op.c
                             [] op.o = "resolve" -> op.c
                             [] op.o = "cts" -> Max(op.s, op.c)
                             [] OTHER -> 0)
=============================================================================
