-------------------------------- MODULE Raw --------------------------------
(* The plain key-value interface of a region: every write adds versions [k, t, f, v, d] of keys -
   f is "P" (put), "T" (put which dies after time d) or "D" (deleted) - and a read at timestamp t
   sees, of each key, the newest version at or below t. Keys are 1..6 in their byte order (key 2 is
   a prefix of key 3, key 4 of key 5), 0 and 7 the borders of the region, 8 lies beyond it.
   Value 0 is the empty value. *)
EXTENDS Integers, Sequences, FiniteSets
Inf == 1000000000
RawKeys == 1..6
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Rng(q) == {q[j] : j \in DOMAIN q}
At(t) == IF t = 0 THEN Inf ELSE t
Upto(vs, k, t) == {x \in vs : x.k = k /\ x.t <= t}
Dead(x, now) == x.f = "D" \/ (x.f = "T" /\ x.d < now)
None == -1
Vis(vs, k, t, now) == LET u == Upto(vs, k, t) IN IF u = {} THEN None ELSE LET x == CHOOSE x \in u : \A y \in u : y.t <= x.t IN IF Dead(x, now) THEN None ELSE x.v
----------------------------------------------------------------------------
\* ranges: a border which is left out, or an end which is included, stands for all keys it is a prefix of
Group(k) == IF k = 2 THEN {2, 3} ELSE IF k = 4 THEN {4, 5} ELSE {k}
Covered(v) == {k \in RawKeys : (k > v.lo \/ (k = v.lo /\ v.ws)) /\ (~v.ws => k \notin Group(v.lo)) /\ (k < v.hi \/ (v.we /\ k \in Group(v.hi)))}
Beyond(v) == v.hi >= 7 /\ v.we
Clip(v) == v.hi = 8 \* the end is checked as far as the prefix it shares with the border of the region; what lies beyond is cut off
----------------------------------------------------------------------------
(* what a write does, given the timestamp it got: the versions it adds (a later entry of the
   request for the same key wins), the keys it wipes out, and its answer *)
Put1(v, j, ts) == [k |-> v.ks[j], t |-> ts, f |-> IF v.d = 0 THEN "P" ELSE "T", v |-> v.vs[j], d |-> IF v.d = 0 THEN 0 ELSE v.now + v.d]
Del1(k, ts) == [k |-> k, t |-> ts, f |-> "D", v |-> 0, d |-> 0]
LastOf(v, S) == {j \in S : \A i \in S : v.ks[i] = v.ks[j] => i <= j}
Ans(r, rt, st) == [r |-> r, rt |-> rt, st |-> st]
Eff(a, add, del) == [a |-> a, add |-> add, del |-> del]
Nothing(r, n) == Eff(Ans(r, 0, [j \in 1..n |-> 0]), {}, {})
Some(S, ts) == IF S = {} THEN 0 ELSE ts
Bits(n, S) == [j \in 1..n |-> IF j \in S THEN 1 ELSE 0]
Writes == {"put", "bput", "pia", "bpia", "cas", "bcas", "bdel", "drange"}
TakesTs(v) == v.e \in Writes \ {"drange"}
Effect(vs, v, ts) ==
  LET n == Len(v.ks)  D == 1..n
      see(j) == Vis(vs, v.ks[j], Inf, v.now)
      absent == {j \in D : see(j) = None}
      match == {j \in D : IF see(j) = None THEN v.xs[j] = 0 ELSE see(j) = v.xs[j]}
      cas(j) == IF v.vs[j] = 0 THEN Del1(v.ks[j], ts) ELSE Put1(v, j, ts)
      first == CHOOSE j \in D \ match : \A i \in D \ match : j <= i IN
  CASE v.e \in {"put", "bput"} -> Eff(Ans("ok", ts, <<>>), {Put1(v, j, ts) : j \in LastOf(v, D)}, {})
    [] v.e = "bdel" -> Eff(Ans("ok", 0, Bits(n, D \ absent)), {Del1(v.ks[j], ts) : j \in D}, {})
    [] v.e \in {"pia", "bpia"} ->
         IF (v.e = "pia" \/ v.at) /\ absent # D THEN Nothing("ok", n)
         ELSE Eff(Ans("ok", Some(absent, ts), Bits(n, absent)), {Put1(v, j, ts) : j \in LastOf(v, absent)}, {})
    [] v.e \in {"cas", "bcas"} ->
         IF (v.e = "cas" \/ v.at) /\ match # D THEN Nothing(IF see(first) = None THEN "err" ELSE "ok", n)
         ELSE Eff(Ans("ok", Some(match, ts), Bits(n, match)), {cas(j) : j \in LastOf(v, match)}, {})
    [] v.e = "drange" -> IF Covered(v) = {} /\ ~Beyond(v) THEN Nothing("ok", 0) ELSE IF Beyond(v) THEN Nothing("err", 0) ELSE Eff(Ans("ok", 0, <<>>), {}, Covered(v))
Apply(vs, e) == LET keep == {x \in vs : x.k \notin e.del} IN {x \in keep : ~\E y \in e.add : y.k = x.k /\ y.t = x.t} \cup e.add
----------------------------------------------------------------------------
\* the rows of a range at a timestamp, in key order
RECURSIVE RowsFrom(_, _, _, _, _, _)
RowsFrom(vs, S, t, now, ko, k) == IF k > 6 THEN <<>> ELSE LET w == Vis(vs, k, t, now) IN (IF k \in S /\ w # None THEN <<<<k, IF ko THEN 0 ELSE w>>>> ELSE <<>>) \o RowsFrom(vs, S, t, now, ko, k + 1)
Rows(vs, v) == RowsFrom(vs, Covered(v), At(v.t), v.now, v.ko, 1)
----------------------------------------------------------------------------
\* collection of old versions: nothing a read at sp or later can see is lost; what nobody can see is gone
GcOnly(s, u, sp) == u \subseteq s /\ \A x \in s \ u : x.t <= sp
GcKnown(s, k, sp, t) == \E y \in s : y.k = k /\ y.t > sp /\ y.t > t   \* the listed finding: a newer version lies above the safe point
GcSafe(s, u, sp, now) == GcOnly(s, u, sp) /\ \A k \in RawKeys : \A t \in sp..12 : Vis(s, k, t, now) # Vis(u, k, t, now) => GcKnown(s, k, sp, t)
GcSafeStrict(s, u, sp, now) == GcOnly(s, u, sp) /\ \A k \in RawKeys : \A t \in sp..12 : Vis(s, k, t, now) = Vis(u, k, t, now)
GcDone(u, sp, now) == \A x \in u : x.t <= sp => ~Dead(x, now) /\ ~\E y \in u : y.k = x.k /\ y.t <= sp /\ y.t > x.t
=============================================================================
