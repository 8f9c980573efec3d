------------------------------- MODULE RaftLog -------------------------------
(* The raft log kept for one region: entries <<index, term, kind, data>> (kind 1 no-op, 2 data, 3 configuration),
   first and last index, and for every client (1 raft, 2 vector index) the index below which it no longer needs the log. *)
EXTENDS Integers, Sequences, FiniteSets
Zero(n) == [c \in 1..n |-> 0]
Fresh(n) == [f |-> 1, l |-> 0, x |-> <<>>, mk |-> Zero(n)]
LMax(a, b) == IF a > b THEN a ELSE b
LMin(S) == CHOOSE a \in S : \A b \in S : a <= b
Least(mk) == LMin({mk[c] : c \in DOMAIN mk})
From(x, k) == SelectSeq(x, LAMBDA e : e[1] >= k)
UpTo(x, k) == SelectSeq(x, LAMBDA e : e[1] <= k)
App(g, es) == [g EXCEPT !.x = @ \o es, !.l = es[Len(es)][1]]
\* client c no longer needs what lies below k; the log goes up to what no client needs. k = 0: it needs everything again.
TruncP(g, c, k) ==
  IF k <= 0 THEN [g EXCEPT !.mk[c] = 0]
  ELSE IF k <= g.f \/ k <= g.mk[c] THEN g
  ELSE LET mk == [g.mk EXCEPT ![c] = k]  eff == Least(mk) IN
       IF eff <= g.f THEN [g EXCEPT !.mk = mk] ELSE [f |-> eff, l |-> LMax(g.l, eff - 1), x |-> From(g.x, eff), mk |-> mk]
TruncS(g, k) == IF k >= g.l THEN g ELSE [g EXCEPT !.x = UpTo(@, k), !.l = k, !.f = IF k + 1 <= @ THEN k + 1 ELSE @]
Reset(g, k) == [f |-> k, l |-> k - 1, x |-> <<>>, mk |-> Zero(Len(g.mk))]
\* what is known after a restart: the entries, and the indexes they span
Recover(g) == [f |-> IF g.x = <<>> THEN 1 ELSE g.x[1][1], l |-> IF g.x = <<>> THEN 0 ELSE g.x[Len(g.x)][1], x |-> g.x, mk |-> Zero(Len(g.mk))]
Do(g, p) == IF p.o = "app" THEN App(g, p.x) ELSE IF p.o = "tp" THEN TruncP(g, p.c + 1, p.k) ELSE IF p.o = "ts" THEN TruncS(g, p.k)
            ELSE IF p.o = "reset" THEN Reset(g, p.k) ELSE Fresh(Len(g.mk))
\* what a crash inside p can leave: nothing, all of it, or the first entries of an append
After(g, p) == {g.x, Do(g, p).x} \cup (IF p.o = "app" THEN {g.x \o SubSeq(p.x, 1, n) : n \in 1..Len(p.x)} ELSE {})
==============================================================================
