-------------------------------- MODULE Inc --------------------------------
(* Auto-increment counters: the state machine of one log, and what a leader does with a request. Numbers are pairs <<high, low>> in base 2^14. *)
EXTENDS Integers, Sequences, FiniteSets
B == 16384
Nrm(h, l) == <<h + l \div B, l % B>>
Add(a, b) == Nrm(a[1] + b[1], a[2] + b[2])
AddS(a, k) == Nrm(a[1], a[2] + k)
SubS(a, k) == Nrm(a[1] - 4, a[2] + 4 * B - k)          \* k up to 2^16
Mul(c, k) == Nrm((c \div B) * k, (c % B) * k)          \* c * k, k below 2^16
Mod(a, m) == ((a[1] % m) * (B % m) + a[2]) % m
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Max(a, b) == IF Less(a, b) THEN b ELSE a
\* the first number from s on that is off modulo inc; where the numbers given end
First(s, inc, off) == LET r == Mod(s, inc)  o == off IN IF r < o THEN AddS(SubS(s, r), o) ELSE IF r > o THEN AddS(SubS(s, r), inc + o) ELSE s
GenEnd(s, c, inc, off0) == LET off == IF off0 > inc THEN 1 ELSE off0 IN IF inc = 1 THEN AddS(s, c) ELSE Add(First(s, inc, off), Mul(c, inc))
\* counters: a function from tables
Has(m, t) == t \in DOMAIN m
Put(m, t, v) == [x \in DOMAIN m \cup {t} |-> IF x = t THEN v ELSE m[x]]
Del(m, t) == [x \in DOMAIN m \ {t} |-> m[x]]
Entry0 == [op |-> "", t |-> 0, s |-> <<0, 0>>, from |-> <<0, 0>>, c |-> 0, inc |-> 0, off |-> 0]
ApplyOne(m, x) ==
  CASE x.op = "create" -> Put(m, x.t, IF Has(m, x.t) THEN Max(m[x.t], x.s) ELSE x.s)   \* somebody created it first, and may have used it
    [] x.op = "delete" -> Del(m, x.t)
    [] ~Has(m, x.t) -> m
    [] x.op = "gen" -> Put(m, x.t, GenEnd(m[x.t], x.c, x.inc, x.off))
    [] x.op = "set" -> IF Less(x.from, x.s) /\ Less(x.s, m[x.t]) THEN m ELSE Put(m, x.t, x.s)   \* a raise does not lower
    [] OTHER -> m
RECURSIVE ApplyAll(_, _)
ApplyAll(m, xs) == IF xs = <<>> THEN m ELSE ApplyAll(ApplyOne(m, Head(xs)), Tail(xs))
\* a request at a leader with counters m: [r |-> "err" / "go", xs |-> proposed]
Err == [r |-> "err", xs |-> <<>>]
Go(xs) == [r |-> "go", xs |-> xs]
CreateX(m, t, s) == IF Has(m, t) THEN IF m[t] = s THEN Go(<<>>) ELSE Err ELSE Go(<<[Entry0 EXCEPT !.op = "create", !.t = t, !.s = s]>>)
SetX(m, t, s) == [Entry0 EXCEPT !.op = "set", !.t = t, !.s = s, !.from = m[t]]
RestoreX(m, t, s) == IF ~Has(m, t) THEN CreateX(m, t, s) ELSE IF Less(s, m[t]) THEN Err ELSE IF s = m[t] THEN Go(<<>>) ELSE Go(<<SetX(m, t, s)>>)
RECURSIVE Each(_, _, _)
Each(F(_, _), g, xs) == IF g = <<>> THEN Go(xs) ELSE LET o == F(Head(g).t, Head(g).s) IN IF o.r = "err" THEN Err ELSE Each(F, Tail(g), xs \o o.xs)
Admit(m, q) ==
  CASE q.op = "create" -> CreateX(m, q.t, q.s)
    [] q.op = "creates" -> LET F(t, s) == CreateX(m, t, s) IN Each(F, q.g, <<>>)
    [] q.op = "restore" -> LET F(t, s) == RestoreX(m, t, s) IN Each(F, q.g, <<>>)
    [] q.op = "delete" -> Go(IF Has(m, q.t) THEN <<[Entry0 EXCEPT !.op = "delete", !.t = q.t]>> ELSE <<>>)
    [] q.op = "set" -> IF ~Has(m, q.t) \/ (~Less(m[q.t], q.s) /\ ~q.force) THEN Err ELSE Go(<<SetX(m, q.t, q.s)>>)
    [] q.op = "gen" -> IF ~Has(m, q.t) \/ q.c \notin 1..100000 \/ q.inc \notin 1..65535 \/ q.off \notin 1..65535 THEN Err
                       ELSE Go(<<[Entry0 EXCEPT !.op = "gen", !.t = q.t, !.c = q.c, !.inc = q.inc, !.off = q.off]>>)
\* counters below these floors would hand out numbers again: fl is moved by generating, and taken back only by deleting and by force
Floor(fl, m, xs, force) == [t \in DOMAIN fl |-> IF \E k \in DOMAIN xs : xs[k].t = t /\ xs[k].op = "delete" THEN <<0, 0>> ELSE IF force /\ \E k \in DOMAIN xs : xs[k].t = t /\ xs[k].op = "set" /\ Has(m, t) THEN IF Less(xs[1].s, fl[t]) THEN xs[1].s ELSE fl[t]
                                       ELSE IF xs # <<>> /\ xs[1].op = "gen" /\ xs[1].t = t /\ Has(m, t) THEN Max(fl[t], GenEnd(m[t], xs[1].c, xs[1].inc, xs[1].off)) ELSE fl[t]]
=============================================================================
