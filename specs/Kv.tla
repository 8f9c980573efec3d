------------------------------- MODULE Kv -------------------------------
(* The versioned key-value store of the coordinator: revisions, key generations, leases and one-time watches.
   State s:
     rev    last revision given out                nl    last lease id given out
     idx    {[k, m, g]}: per key the last modification <<main, sub>> and its generations, each [c, v, r]:
            creation revision (<<>>: the key is deleted), number of changes, revisions still kept
     rv     {[r, k, v, c, m, ver, l, d]}: what every kept revision holds
     ls     {[id, ttl, rn]}: leases                lk    {<<lease, key>>}: what the leader remembers of them
     w      {[id, k, st, r0, np, nd, pv, ca]}: waiting one-time watches
     lead, built, now: leadership, whether the leader has rebuilt lk, clock in seconds
   Outcome(s, op) is the set of [s, r] an operation may end in. r = [e, rev, n, kvs, more, id, ttl, ks, fired].      *)
EXTENDS Integers, Sequences, FiniteSets
ToSet0(q) == {q[i] : i \in DOMAIN q}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Last(q) == q[Len(q)]
Has(s, k) == \E x \in s.idx : x.k = k
Ix(s, k) == CHOOSE x \in s.idx : x.k = k
HasRev(s, r) == \E x \in s.rv : x.r = r
Rv(s, r) == CHOOSE x \in s.rv : x.r = r
LiveIx(x) == x.g # <<>> /\ Last(x.g).c # <<>> /\ Last(x.g).r # <<>>
Live(s, k) == Has(s, k) /\ LiveIx(Ix(s, k))
LiveKeys(s) == {x.k : x \in {y \in s.idx : LiveIx(y)}}
\* the pair a client sees
Kv(s, k) == LET q == Rv(s, Ix(s, k).m) IN [k |-> k, v |-> q.v, c |-> q.c[1], m |-> q.m[1], ver |-> q.ver, l |-> q.l]
NoKv == [k |-> 0, v |-> 0, c |-> 0, m |-> 0, ver |-> 0, l |-> 0]
NoRes == [e |-> "ok", rev |-> 0, n |-> 0, kvs |-> <<>>, more |-> FALSE, id |-> 0, ttl |-> 0, ks |-> {}, fired |-> {}]
Err(s, e) == [s |-> s, r |-> [NoRes EXCEPT !.e = e]]
RECURSIVE SortK(_)
SortK(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortK(S \ {m})
------------------------------------------------------------------------
\* state machine: one change of one key at revision r; fires watches. Each returns [s, fired].
Fire(s, k, ty, new, prev) ==
  LET hit == {w \in s.w : w.k = k /\ ~(w.np /\ ty = "P") /\ ~(w.nd /\ ty = "D") /\ (IF w.st = 0 THEN w.r0 ELSE w.st) <= new.m} IN
  [s |-> [s EXCEPT !.w = @ \ hit],
   fired |-> {[id |-> w.id, ty |-> ty, kv |-> new, pv |-> IF w.pv THEN prev ELSE NoKv] : w \in hit}]
PrevKv(s, k) == IF Live(s, k) THEN LET x == Ix(s, k) q == Rv(s, x.m) IN [k |-> k, v |-> q.v, c |-> Last(x.g).c[1], m |-> x.m[1], ver |-> Last(x.g).v, l |-> q.l] ELSE NoKv
PutIdx(s, k, r) ==
  IF ~Has(s, k) THEN [k |-> k, m |-> r, g |-> <<[c |-> r, v |-> 1, r |-> <<r>>]>>]
  ELSE LET x == Ix(s, k) n == Len(x.g) IN
    IF n = 0 THEN [k |-> k, m |-> r, g |-> <<[c |-> r, v |-> 1, r |-> <<r>>]>>]
    ELSE IF x.g[n].c # <<>> THEN [k |-> k, m |-> r, g |-> [x.g EXCEPT ![n] = [c |-> @.c, v |-> @.v + 1, r |-> Append(@.r, r)]]]
    ELSE [k |-> k, m |-> r, g |-> [x.g EXCEPT ![n] = [c |-> r, v |-> 1, r |-> <<r>>]]]
\* il / iv: keep the lease / the value of the previous revision
PutApply(s, k, v, l, il, iv, r) ==
  LET old == IF Has(s, k) /\ HasRev(s, Ix(s, k).m) THEN Rv(s, Ix(s, k).m) ELSE [v |-> 0, l |-> 0]
      x == PutIdx(s, k, r) g == Last(x.g)
      nl == IF il THEN old.l ELSE l
      q == [r |-> r, k |-> k, v |-> IF iv THEN old.v ELSE v, c |-> g.c, m |-> r, ver |-> g.v, l |-> nl, d |-> FALSE]
      s1 == [s EXCEPT !.idx = {y \in @ : y.k # k} \cup {x}, !.rv = {y \in @ : y.r # r} \cup {q}]
  IN IF nl # 0 /\ ~(\E y \in s.ls : y.id = nl) THEN [s |-> s, fired |-> {}, ok |-> FALSE]
     ELSE LET f == Fire(s1, k, "P", [k |-> k, v |-> q.v, c |-> g.c[1], m |-> r[1], ver |-> g.v, l |-> nl], PrevKv(s, k)) IN [s |-> f.s, fired |-> f.fired, ok |-> TRUE]
DelApply(s, k, r) ==
  IF ~Live(s, k) THEN [s |-> s, fired |-> {}, ok |-> TRUE]
  ELSE LET x == Ix(s, k) n == Len(x.g)
           g == Append([x.g EXCEPT ![n] = [c |-> @.c, v |-> @.v + 1, r |-> Append(@.r, r)]], [c |-> <<>>, v |-> 0, r |-> <<>>])
           ver == x.g[n].v + 1
           q == [r |-> r, k |-> k, v |-> 0, c |-> x.g[n].c, m |-> r, ver |-> ver, l |-> 0, d |-> TRUE]
           s1 == [s EXCEPT !.idx = {y \in @ : y.k # k} \cup {[k |-> k, m |-> r, g |-> g]}, !.rv = {y \in @ : y.r # r} \cup {q}]
           f == Fire(s1, k, "D", [k |-> k, v |-> 0, c |-> x.g[n].c[1], m |-> r[1], ver |-> ver, l |-> 0], PrevKv(s, k))
       IN [s |-> f.s, fired |-> f.fired, ok |-> TRUE]
RECURSIVE DelAll(_, _, _, _)
DelAll(s, ks, main, sub) ==
  IF ks = <<>> THEN [s |-> s, fired |-> {}]
  ELSE LET a == DelApply(s, ks[1], <<main, sub>>) b == DelAll(a.s, Tail(ks), main, sub + 1) IN [s |-> b.s, fired |-> a.fired \cup b.fired]
\* revisions below c disappear, except the last revision of a live key and everything behind the first kept revision
RECURSIVE Keep(_, _)
Keep(q, c) == IF q = <<>> THEN <<>> ELSE IF q[1][1] < c THEN Keep(Tail(q), c) ELSE <<q[1]>> \o Keep(Tail(q), c)
RECURSIVE OldGens(_, _)
OldGens(gs, c) ==  \* the closed generations
  IF gs = <<>> THEN <<>>
  ELSE LET k == Keep(gs[1].r, c) IN
    IF gs[1].c = <<>> \/ k = <<>> THEN OldGens(Tail(gs), c) ELSE <<[gs[1] EXCEPT !.r = k]>> \o Tail(gs)
RevsOf(gs) == UNION {ToSet0(gs[i].r) : i \in DOMAIN gs}
CompactApply(s, k, c) ==
  IF ~Has(s, k) \/ Ix(s, k).g = <<>> THEN s
  ELSE LET x == Ix(s, k) n == Len(x.g) g == x.g[n]
           h == OldGens(SubSeq(x.g, 1, n - 1), c)
           last == IF h # <<>> THEN <<g>>
                   ELSE IF g.c = <<>> THEN <<>>
                   ELSE LET m == Len(g.r) IN <<[g EXCEPT !.r = Keep(SubSeq(g.r, 1, m - 1), c) \o <<g.r[m]>>]>>
           ng == h \o last
           gone == RevsOf(x.g) \ RevsOf(ng)
       IN [s EXCEPT !.idx = {y \in @ : y.k # k} \cup (IF ng = <<>> THEN {} ELSE {[x EXCEPT !.g = ng]}),
                    !.rv = {y \in @ : y.r \notin gone}]
RECURSIVE CompactAll(_, _, _)
CompactAll(s, ks, c) == IF ks = <<>> THEN s ELSE CompactAll(CompactApply(s, ks[1], c), Tail(ks), c)
------------------------------------------------------------------------
\* e = 0: the single key k; e = -1: every key from k on; else keys in [k, e)
InRange(x, k, e) == IF e = 0 THEN x = k ELSE IF e = -1 THEN x >= k ELSE x >= k /\ x < e
RangeKeys(s, k, e) == SortK({x \in LiveKeys(s) : InRange(x, k, e)})
Lease(s, id) == CHOOSE x \in s.ls : x.id = id
HasLease(s, id) == \E x \in s.ls : x.id = id
Remain(s, id) == Lease(s, id).ttl - (s.now - Lease(s, id).rn)
Built(s) == s.lead /\ s.built
LeaseErr(s, id) == IF ~s.built THEN "nl" ELSE IF ~HasLease(s, id) \/ Remain(s, id) <= 0 THEN "le" ELSE "ok"
OutPut(s, o) ==
  IF o.k = 0 \/ (~o.iv /\ o.v = 0) THEN {Err(s, "bad")}
  ELSE LET le == IF ~o.il /\ o.l # 0 THEN LeaseErr(s, o.l) ELSE "ok" IN
  IF le # "ok" THEN {Err(s, le)}
  ELSE IF o.il /\ ~Live(s, o.k) THEN {Err(s, "bad")}
  ELSE IF ~o.il /\ Live(s, o.k) /\ Kv(s, o.k).l # o.l THEN {Err(s, "bad")}
  ELSE LET lg == IF o.il THEN Kv(s, o.k).l ELSE o.l
           r == s.rev + 1
           a == PutApply([s EXCEPT !.rev = r], o.k, o.v, lg, o.il, o.iv, <<r, 1>>)
           done == [s |-> [a.s EXCEPT !.lk = IF lg = 0 \/ ~s.built THEN @ ELSE @ \cup {<<lg, o.k>>}],
                    r |-> [NoRes EXCEPT !.rev = r, !.kvs = IF o.pv THEN <<IF Live(s, o.k) THEN Kv(s, o.k) ELSE NoKv>> ELSE <<>>, !.fired = a.fired]]
       IN IF lg # 0 /\ ~s.built THEN {done, Err(s, "le")} ELSE {done}
OutDel(s, o) ==
  IF o.k = 0 THEN {Err(s, "bad")}
  ELSE LET ks == RangeKeys(s, o.k, o.k2) r == IF ks = <<>> THEN s.rev ELSE s.rev + 1
           a == DelAll([s EXCEPT !.rev = r], ks, r, 1)
       IN {[s |-> [a.s EXCEPT !.lk = {p \in @ : p[2] \notin ToSet0(ks)}],
            r |-> [NoRes EXCEPT !.rev = IF ks = <<>> THEN 0 ELSE r, !.n = Len(ks), !.kvs = IF o.pv THEN [i \in DOMAIN ks |-> Kv(s, ks[i])] ELSE <<>>, !.fired = a.fired]]}
OutRange(s, o) ==
  IF o.k = 0 THEN {Err(s, "bad")}
  ELSE LET ks == RangeKeys(s, o.k, o.k2) lim == IF o.n <= 0 THEN Len(ks) ELSE Min2(o.n, Len(ks))
       IN {[s |-> s, r |-> [NoRes EXCEPT !.n = lim, !.more = Len(ks) > lim,
            !.kvs = IF o.iv THEN <<>> ELSE [i \in 1..lim |-> IF o.il THEN [Kv(s, ks[i]) EXCEPT !.v = 0] ELSE Kv(s, ks[i])]]]}   \* iv: count only, il: keys only
OutCompact(s, o) ==
  IF o.k = 0 THEN {Err(s, "bad")}
  ELSE LET ks == IF o.k2 = 0 THEN (IF Has(s, o.k) THEN <<o.k>> ELSE <<>>) ELSE RangeKeys(s, o.k, o.k2)
       IN {[s |-> CompactAll(s, ks, o.n), r |-> [NoRes EXCEPT !.n = Len(ks)]]}
OutAuto(s, o) == {[s |-> IF 10000 + s.rev < o.n THEN s ELSE CompactAll(s, SortK({x.k : x \in s.idx}), s.rev - o.n), r |-> NoRes]}
OutGrant(s, o) ==
  IF o.ttl <= 0 \/ o.id < 0 THEN {Err(s, "bad")}
  ELSE IF ~s.built THEN {Err(s, "nl")}
  ELSE LET id == IF o.id = 0 THEN s.nl + 1 ELSE o.id  s1 == IF o.id = 0 THEN [s EXCEPT !.nl = @ + 1] ELSE s
           ttl == Max2(3, Min2(300, o.ttl))
       IN IF HasLease(s, id) THEN {Err(s1, "le")}
          ELSE {[s |-> [s1 EXCEPT !.ls = @ \cup {[id |-> id, ttl |-> ttl, rn |-> s.now]}], r |-> [NoRes EXCEPT !.id = id, !.ttl = ttl]]}
OutRenew(s, o) ==
  IF o.id = 0 THEN {Err(s, "bad")}
  ELSE IF ~s.built THEN {Err(s, "nl")} ELSE IF ~HasLease(s, o.id) THEN {Err(s, "le")}
  ELSE {[s |-> [s EXCEPT !.ls = {IF x.id = o.id THEN [x EXCEPT !.rn = s.now] ELSE x : x \in @}], r |-> [NoRes EXCEPT !.id = o.id, !.ttl = Lease(s, o.id).ttl]]}
Attached(s, id) == SortK({p[2] : p \in {q \in s.lk : q[1] = id}})
RECURSIVE LeaseKeysInOrder(_, _)
LeaseKeysInOrder(s, ids) == IF ids = <<>> THEN <<>> ELSE Attached(s, ids[1]) \o LeaseKeysInOrder(s, Tail(ids))
\* leases disappear together with every key attached to them, in one revision
Revoke(s, ids) ==
  LET ks == SelectSeq(LeaseKeysInOrder(s, ids), LAMBDA k : Live(s, k)) r == IF ks = <<>> THEN s.rev ELSE s.rev + 1
      a == DelAll([s EXCEPT !.rev = r, !.ls = {x \in @ : x.id \notin ToSet0(ids)}], ks, r, 1)
  IN [s |-> [a.s EXCEPT !.lk = {p \in @ : p[1] \notin ToSet0(ids)}], fired |-> a.fired]
OutRevoke(s, o) ==
  IF o.id = 0 THEN {Err(s, "bad")}
  ELSE IF ~s.built THEN {Err(s, "nl")} ELSE IF ~HasLease(s, o.id) THEN {Err(s, "le")}
  ELSE LET a == Revoke(s, <<o.id>>) IN {[s |-> a.s, r |-> [NoRes EXCEPT !.fired = a.fired]]}
OutQuery(s, o) ==
  IF o.id <= 0 THEN {Err(s, "le")}
  ELSE IF LeaseErr(s, o.id) # "ok" THEN {Err(s, LeaseErr(s, o.id))}
  ELSE {[s |-> s, r |-> [NoRes EXCEPT !.id = o.id, !.ttl = Remain(s, o.id), !.n = Lease(s, o.id).ttl, !.ks = IF o.pv THEN ToSet0(Attached(s, o.id)) ELSE {}]]}
OutList(s, o) == {[s |-> s, r |-> [NoRes EXCEPT !.ks = {x.id : x \in s.ls}]]}
Rebuild(s) == {<<Kv(s, k).l, k>> : k \in {x \in LiveKeys(s) : Kv(s, x).l # 0 /\ HasLease(s, Kv(s, x).l)}}
OutTask(s, o) ==
  IF ~s.lead THEN {[s |-> [s EXCEPT !.built = FALSE, !.lk = {}], r |-> NoRes]}
  ELSE LET s1 == IF s.built THEN s ELSE [s EXCEPT !.built = TRUE, !.lk = Rebuild(s)]
           a == Revoke(s1, SortK({x.id : x \in {y \in s.ls : y.ttl + y.rn < s.now}}))
       IN {[s |-> a.s, r |-> [NoRes EXCEPT !.fired = a.fired]]}
OutWatch(s, o) ==
  IF o.k = 0 \/ (o.np /\ o.nd) THEN {Err(s, "bad")}
  ELSE LET st == IF o.st = 0 THEN s.rev ELSE o.st
           ev(ty, kv) == [s |-> s, r |-> [NoRes EXCEPT !.fired = {[id |-> o.id, ty |-> ty, kv |-> kv, pv |-> NoKv]}]]
           wait == [s |-> [s EXCEPT !.w = @ \cup {[id |-> o.id, k |-> o.k, st |-> o.st, r0 |-> s.rev, np |-> o.np, nd |-> o.nd, pv |-> o.pv, ca |-> FALSE]}], r |-> NoRes]
       IN IF ~Live(s, o.k) /\ ~o.wt THEN {ev("N", NoKv)}
          ELSE IF Live(s, o.k) /\ Kv(s, o.k).m > st THEN {ev("P", Kv(s, o.k))} \cup (IF o.np THEN {wait} ELSE {})
          ELSE {wait}
OutCancel(s, o) == {[s |-> [s EXCEPT !.w = {IF x.id = o.id THEN [x EXCEPT !.ca = TRUE] ELSE x : x \in @}], r |-> NoRes]}
Gone(ws) == {[id |-> w.id, ty |-> "X", kv |-> NoKv, pv |-> NoKv] : w \in ws}
OutReap(s, o) == LET c == {x \in s.w : x.ca} IN {[s |-> [s EXCEPT !.w = @ \ c], r |-> [NoRes EXCEPT !.fired = Gone(c)]]}
OutStop(s, o) == {[s |-> [s EXCEPT !.lead = FALSE, !.built = FALSE, !.lk = {}, !.w = {}], r |-> [NoRes EXCEPT !.fired = Gone(s.w)]]}
OutLead(s, o) == {[s |-> [s EXCEPT !.lead = TRUE, !.built = FALSE, !.lk = {}], r |-> NoRes]}
OutCrash(s, o) == {[s |-> [s EXCEPT !.lead = TRUE, !.built = FALSE, !.lk = {}, !.w = {}, !.nl = n], r |-> NoRes] : n \in {s.nl, s.pnl}}
OutTick(s, o) == {[s |-> [s EXCEPT !.now = @ + o.n], r |-> NoRes]}
\* an entry another leader wrote
OutFPut(s, o) == LET r == s.rev + 1 a == PutApply([s EXCEPT !.rev = r], o.k, o.v, o.l, o.il, o.iv, <<r, 1>>) IN {[s |-> a.s, r |-> NoRes]}
OutFDel(s, o) == LET r == s.rev + 1 a == DelApply([s EXCEPT !.rev = r], o.k, <<r, 1>>) IN {[s |-> a.s, r |-> NoRes]}
Client == {"put", "del", "range", "compact", "grant", "renew", "revoke", "query", "list", "watch"}
Outcome0(s, o) ==
  IF o.o \in Client /\ ~s.lead THEN {Err(s, "nl")}
  ELSE CASE o.o = "put" -> OutPut(s, o) [] o.o = "del" -> OutDel(s, o) [] o.o = "range" -> OutRange(s, o) [] o.o = "compact" -> OutCompact(s, o)
    [] o.o = "auto" -> OutAuto(s, o) [] o.o = "grant" -> OutGrant(s, o) [] o.o = "renew" -> OutRenew(s, o) [] o.o = "revoke" -> OutRevoke(s, o)
    [] o.o = "query" -> OutQuery(s, o) [] o.o = "list" -> OutList(s, o) [] o.o = "task" -> OutTask(s, o) [] o.o = "watch" -> OutWatch(s, o)
    [] o.o = "cancel" -> OutCancel(s, o) [] o.o = "reap" -> OutReap(s, o) [] o.o = "stop" -> OutStop(s, o) [] o.o = "lead" -> OutLead(s, o)
    [] o.o = "crash" -> OutCrash(s, o) [] o.o = "tick" -> OutTick(s, o) [] o.o = "fput" -> OutFPut(s, o) [] o.o = "fdel" -> OutFDel(s, o)
\* pnl: the lease id counter as far as it is on disk (an id drawn for a refused request is not)
Outcome(s, o) == {[x EXCEPT !.s.pnl = IF o.o = "grant" /\ x.r.e = "ok" /\ o.id = 0 THEN x.s.nl ELSE IF o.o = "crash" THEN x.s.nl ELSE @] : x \in Outcome0(s, o)}
Init0 == [rev |-> 0, nl |-> 90000, pnl |-> 90000, idx |-> {}, rv |-> {}, ls |-> {}, lk |-> {}, w |-> {}, lead |-> TRUE, built |-> TRUE, now |-> 0]
=============================================================================
