------------------------------ MODULE RawTrace ------------------------------
(* Conformance: recorded histories of requests to a replicated region (m = FALSE) and an unreplicated
   one over the same data, followed request by request; changes of leader, scans in pages. *)
EXTENDS Raw, Json, IOUtils, TLC
VARIABLES i, ps, s
Raw0 == ndJsonDeserialize(IOEnv.TRACE)
NoEff == [add |-> {}, del |-> {}]
S0 == [vs |-> {}, mx |-> 0, mv |-> 0, ld |-> "up", pd |-> NoEff, ss |-> <<>>]
Set(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Drop(f, S) == [y \in DOMAIN f \ S |-> f[y]]
Res(st, bad) == [st |-> st, bad |-> bad]
TopTs(e) == IF e.add = {} THEN 0 ELSE (CHOOSE x \in e.add : TRUE).t
\* a write runs on state st, which includes everything committed
Written(st, v, e) == [st EXCEPT !.vs = Apply(@, e), !.mx = IF v.m THEN @ ELSE Max(@, TopTs(e))]
HasTs(st, v) == ~TakesTs(v) \/ (v.nt > 0 /\ v.nt > st.mv)
Same(v, a, e) == a.r = e.a.r /\ (a.r = "ok" => (v.e = "bdel" \/ a.rt = e.a.rt) /\ a.st = e.a.st)
Idle(v) == v.e \in {"drange", "begin1", "begin2"} /\ Covered(v) = {} /\ ~Beyond(v)   \* nothing to do: answered without looking
Page(v, rem, kv) == LET cap == IF v.cap < 0 THEN 0 - v.cap ELSE v.cap  n == Min(Len(rem), Min(v.max, cap)) IN
  Len(kv) <= n /\ kv = SubSeq(rem, 1, Len(kv)) /\ (IF v.cap < 0 /\ n > 0 THEN Len(kv) >= 1 ELSE Len(kv) = n)
Rest(rem, kv) == SubSeq(rem, Len(kv) + 1, Len(rem))
\* a request served normally on st
Serve(st, v) ==
  LET a == v.a IN
  IF v.e \in Writes THEN
    IF ~HasTs(st, v) THEN Res(st, IF a.r = "ok" THEN "timestamp" ELSE "")
    ELSE LET e == Effect(st.vs, v, v.nt) IN Res(Written(st, v, e), IF Same(v, a, e) THEN "" ELSE "answer")
  ELSE IF v.e = "get" THEN LET w == Vis(st.vs, v.ks[1], At(v.t), v.now) IN Res(st, IF a.r = "ok" /\ a.kv = <<<<v.ks[1], IF w = None THEN 0 ELSE w>>>> THEN "" ELSE "read")
  ELSE IF v.e = "bget" THEN LET see(k) == Vis(st.vs, k, At(v.t), v.now) IN Res(st, IF a.r = "ok" /\ Rng(a.kv) = {<<k, see(k)>> : k \in {k \in Rng(v.ks) : see(k) # None}} /\ Len(a.kv) = Cardinality({j \in DOMAIN v.ks : see(v.ks[j]) # None}) THEN "" ELSE "read")
  ELSE \* begin of a scan
    IF Beyond(v) \/ (v.e = "begin2" /\ v.id \in DOMAIN st.ss) THEN Res(st, IF a.r = "ok" THEN "accepted" ELSE "")
    ELSE LET rem == Rows(st.vs, v) IN Res([st EXCEPT !.ss = Set(@, v.id, [rem |-> Rest(rem, a.kv), st |-> "open", last |-> v.now])], IF a.r = "ok" /\ a.sid /\ Page(v, rem, a.kv) THEN "" ELSE "page")
Continue(st, v) ==
  LET a == v.a  x == st.ss[v.id] IN
  IF v.max = 0 \/ v.id \notin DOMAIN st.ss THEN Res(st, IF a.r = "ok" THEN "accepted" ELSE "")
  ELSE IF x.st = "rel" THEN Res([st EXCEPT !.ss = Drop(@, {v.id})], IF a.r = "ok" THEN "accepted" ELSE "")
  ELSE Res([st EXCEPT !.ss[v.id].rem = Rest(@, a.kv), !.ss[v.id].last = v.now], IF a.r = "ok" /\ Page(v, x.rem, a.kv) /\ (v.e = "cont2" /\ ~a.more => Len(a.kv) = Len(x.rem)) THEN "" ELSE "page")
Release(st, v) ==
  LET a == v.a  x == st.ss[v.id] IN
  IF v.id \notin DOMAIN st.ss THEN Res(st, IF a.r = "ok" THEN "accepted" ELSE "")
  ELSE IF x.st = "rel" THEN Res([st EXCEPT !.ss = Drop(@, {v.id})], IF a.r = "ok" THEN "accepted" ELSE "")
  ELSE IF x.dar THEN Res([st EXCEPT !.ss[v.id].st = "rel", !.ss[v.id].last = v.now], IF a.r = "ok" THEN "" ELSE "refused")
  ELSE Res([st EXCEPT !.ss = Drop(@, {v.id})], IF a.r = "ok" THEN "" ELSE "refused")
Dar(r, st, v) == IF v.e \in {"begin1", "begin2"} /\ v.id \in DOMAIN r.st.ss /\ v.id \notin DOMAIN st.ss THEN [r EXCEPT !.st.ss[v.id] = [rem |-> @.rem, st |-> @.st, last |-> @.last, dar |-> v.dar]] ELSE r
\* below the services: the reader of versions, both ways
Reader == {"rscan", "rsome", "rcount", "rmin", "rmax", "rrev"}
Read(st, v) ==
  LET rows == RowsFrom(st.vs, {k \in RawKeys : v.lo <= k /\ k < v.hi}, At(v.t), v.now, FALSE, 1) n == Len(rows) w == IF v.max = 0 THEN 1 ELSE v.max
      want == CASE v.e = "rscan" -> rows [] v.e = "rsome" -> SubSeq(rows, 1, Min(n, w)) [] v.e = "rcount" -> <<<<n, 0>>>>
                [] v.e = "rmin" -> IF n = 0 THEN <<>> ELSE <<<<rows[1][1], 0>>>> [] v.e = "rmax" -> IF n = 0 THEN <<>> ELSE <<<<rows[n][1], 0>>>>
                [] OTHER -> [j \in 1..n |-> rows[n + 1 - j]]
  IN Res(st, IF v.a.r = "ok" /\ v.a.kv = want THEN "" ELSE "read")
Request(st, v) ==
  IF v.e \in Reader THEN Read(st, v) ELSE
  IF v.e \in {"cont1", "cont2"} THEN Continue(st, v)
  ELSE IF v.e \in {"rel1", "rel2"} THEN Release(st, v)
  ELSE IF Idle(v) /\ v.a.r = "ok" /\ ~v.a.sid THEN Res(st, "")
  ELSE IF Clip(v) /\ v.e \in {"drange", "begin1", "begin2"} /\ v.a.r = "err" THEN Res(st, "")
  ELSE IF v.m \/ st.ld = "up" THEN Dar(Serve(st, v), st, v)
  ELSE IF v.a.r = "err" THEN Res(st, "")
  ELSE IF st.ld = "down" THEN Res(st, "not-leader")
  ELSE LET t == [st EXCEPT !.vs = Apply(@, st.pd), !.mx = Max(@, TopTs(st.pd))]   \* just elected: what is committed but not yet applied counts
           r == Dar(Serve(t, v), t, v) IN
       IF r.bad # "" THEN Res(st, "stale") ELSE IF v.e \in Writes /\ r.st.vs # t.vs THEN Res([r.st EXCEPT !.pd = NoEff], "") ELSE Res([st EXCEPT !.ss = r.st.ss], "")
Post(r, p) == IF r.bad = "" /\ r.st.vs # Rng(p) THEN [r EXCEPT !.bad = "state"] ELSE r
Step(st, v) ==
  CASE v.e = "down" -> Res([st EXCEPT !.ld = "down"], "")
    [] v.e = "elected" -> Res([st EXCEPT !.ld = "elected"], "")
    [] v.e = "up" -> Post(Res([st EXCEPT !.ld = "up", !.vs = Apply(@, st.pd), !.mx = Max(@, TopTs(st.pd)), !.mv = Max(@, Max(st.mx, TopTs(st.pd))), !.pd = NoEff], ""), v.p)
    [] v.e = "lost" -> LET e == Effect(st.vs, v.x, v.x.nt) IN Post(Res([st EXCEPT !.pd = [add |-> e.add, del |-> e.del]], IF v.a.r # "err" \/ ~HasTs(st, v.x) \/ (v.x.e # "drange" /\ e.add = {}) THEN "lost" ELSE ""), v.p)
    [] v.e = "clean" -> Res([st EXCEPT !.ss = Drop(@, {y \in DOMAIN st.ss : v.now - st.ss[y].last >= 5000})], "")
    [] OTHER -> Post(Request(st, v), v.p)
Init == i \in DOMAIN Raw0 /\ ps = 0 /\ s = S0
Next == /\ ps < Len(Raw0[i].h) /\ i' = i
        /\ LET v == Raw0[i].h[ps + 1]  r == Step(s, v) IN
             IF r.bad = "" THEN ps' = ps + 1 /\ s' = r.st
             ELSE /\ PrintT(<<"BAD", "raw-" \o v.e \o ":" \o r.bad, i, ps + 1, v, "state", s>>)
                  /\ ps' = Len(Raw0[i].h) /\ s' = S0
=============================================================================
