------------------------------ MODULE RawConc ------------------------------
(* Conformance: two requests served at the same time by the real store, and a request served while its
   replica becomes leader. Each pair must have taken effect in one order, timestamps included; a batch of
   point reads is not one step: each key may be read before or after the other request. *)
EXTENDS Raw, Json, IOUtils, TLC
VARIABLES i, ps
Raw0 == ndJsonDeserialize(IOEnv.TRACE)
Top(vs) == IF vs = {} THEN 0 ELSE (CHOOSE x \in vs : \A y \in vs : y.t <= x.t).t
Same(v, a, e) == a.r = e.a.r /\ (a.r = "ok" => (v.e = "bdel" \/ a.rt = e.a.rt) /\ a.st = e.a.st)
Reads == {"get", "bget", "begin1"}
See(vs, v) == LET w == Vis(vs, v.ks[1], Inf, v.now) IN <<<<v.ks[1], IF w = None THEN 0 ELSE w>>>>
\* the answer of a read which saw one of the two states u and w
ReadOk(u, w, v, a) ==
  /\ a.r = "ok"
  /\ IF v.e = "get" THEN a.kv \in {See(u, v), See(w, v)}
     ELSE IF v.e = "begin1" THEN a.kv \in {Rows(u, v), Rows(w, v)}
     ELSE LET one(x, k) == <<k, Vis(x, k, Inf, v.now)>>  g == Rng(a.kv) IN
          /\ \A k \in Rng(v.ks) : LET h == {x \in g : x[1] = k} IN IF h = {} THEN None \in {Vis(u, k, Inf, v.now), Vis(w, k, Inf, v.now)} ELSE h \subseteq {one(u, k), one(w, k)} \ {<<k, None>>} /\ Cardinality(h) = 1
          /\ \A x \in g : x[1] \in Rng(v.ks)
\* x then y, with timestamps tx and ty, from vs: the state, if the answers fit
Order(vs, x, rx, tx, y, ry, ty, p) ==
  LET ex == Effect(vs, x, tx)  u == Apply(vs, ex)  ey == Effect(u, y, ty) IN
  Same(x, rx, ex) /\ Same(y, ry, ey) /\ (ex.add # {} /\ ey.add # {} => tx < ty) /\ Apply(u, ey) = p
Pair(e) ==
  LET s == Rng(e.s)  p == Rng(e.p)  t == Top(s)  T == {t + 1, t + 2} IN
  IF e.b.e \in Reads THEN (\E tx \in T : LET ex == Effect(s, e.a, tx) IN Same(e.a, e.ra, ex) /\ Apply(s, ex) = p) /\ ReadOk(s, p, e.b, e.rb)
  ELSE \E tx \in T : \E ty \in T \ {tx} : Order(s, e.a, e.ra, tx, e.b, e.rb, ty, p) \/ Order(s, e.b, e.rb, ty, e.a, e.ra, tx, p)
\* e.a was committed by the previous leader, and this replica applies it when it starts to lead
Led(e) ==
  LET s == Rng(e.s)  p == Rng(e.p)  t == Top(s)  u == IF e.sent THEN Apply(s, Effect(s, e.a, e.a.nt)) ELSE s IN
  IF e.rb.r # "ok" /\ p = u THEN TRUE
  ELSE IF e.b.e \in Reads THEN p = u /\ ReadOk(u, u, e.b, e.rb)
  ELSE LET ok(x) == LET ex == Effect(u, e.b, x) IN Same(e.b, e.rb, ex) /\ Apply(u, ex) = p IN ok(t + 6) \/ (ok(t + 1) /\ (~e.sent \/ Effect(s, e.a, e.a.nt).add = {}))
\* the listed finding: a range delete does not exclude requests which read, decide and write. Such a request may have seen some of
\* the keys as they were and others wiped out, and what it wrote may have been wiped out or not
Torn(e, d, v, r) ==
  LET s == Rng(e.s)  p == Rng(e.p)  t == Top(s)  C == Covered(d) IN
  v.e \in Writes \ {"drange"} /\ \E Z \in SUBSET (C \cap Rng(v.ks)) : \E tx \in {t + 1, t + 2} :
    LET ex == Effect({y \in s : y.k \notin Z}, v, tx)  out == {y \in ex.add : y.k \notin C} IN
    /\ Same(v, r, ex)
    /\ {y \in p : y.k \notin C} = Apply({y \in s : y.k \notin C}, [add |-> out, del |-> {}])
    /\ {y \in p : y.k \in C} \subseteq ex.add
Hole(e) == (e.a.e = "drange" /\ e.ra.r = "ok" /\ Torn(e, e.a, e.b, e.rb)) \/ (e.b.e = "drange" /\ e.rb.r = "ok" /\ Torn(e, e.b, e.a, e.ra))
Init == i \in DOMAIN Raw0 /\ ps = 0
Next == /\ ps = 0 /\ i' = i /\ ps' = 1
        /\ LET e == Raw0[i] IN
           IF "sent" \in DOMAIN e THEN (IF Led(e) THEN TRUE ELSE PrintT(<<"BAD", "raw-lead:" \o e.b.e, i, 1, e>>))
           ELSE IF Pair(e) THEN TRUE ELSE IF Hole(e) THEN PrintT(<<"BAD", "rawconc-drange:no-order", i, 1, e>>) ELSE PrintT(<<"BAD", "rawconc-" \o e.a.e \o "-" \o e.b.e \o ":no-order", i, 1, e>>)
=============================================================================
