------------------------------- MODULE KvRep -------------------------------
(* Replicas of the versioned store: what a committed log entry does to the stored data, wherever and however often it is applied;
   snapshots. *)
EXTENDS Kv
\* entry: [x |-> index, kv |-> <<[t, k, v, l, il, iv, c]>>, ls |-> <<[id, op (c, u, d), ttl, rn]>>, nl |-> id handed out or 0, empty]
Full(s) == [idx |-> s.idx, rv |-> s.rv, ls |-> s.ls, w |-> {}, lk |-> {}]
RECURSIVE Leases(_, _)
Leases(L, q) ==
  IF q = <<>> THEN L
  ELSE LET c == q[1] rest == {x \in L : x.id # c.id} new == [id |-> c.id, ttl |-> c.ttl, rn |-> c.rn] IN
    Leases(IF c.op = "d" THEN rest ELSE IF c.op = "u" /\ rest = L THEN L ELSE rest \cup {new}, Tail(q))   \* renewing what is gone does not bring it back
\* f: data; rev: revision of this entry, 0 while no key has asked for one; sub: next
RECURSIVE Keys(_, _, _, _, _)
Keys(f, q, base, rev, sub) ==
  IF q = <<>> THEN [f |-> f, rev |-> IF rev = 0 THEN base ELSE rev]
  ELSE LET c == q[1] r == IF rev = 0 THEN base + 1 ELSE rev IN
    IF c.t = "comp" THEN Keys(CompactApply(f, c.k, c.c), Tail(q), base, rev, sub)
    ELSE IF c.t = "put" THEN Keys(PutApply(f, c.k, c.v, c.l, c.il, c.iv, <<r, sub>>).s, Tail(q), base, r, sub + 1)
    ELSE Keys(DelApply(f, c.k, <<r, sub>>).s, Tail(q), base, r, sub + 1)
ApplyEntry(s, e) ==
  IF e.x <= s.ap \/ e.empty THEN s
  ELSE LET a == Keys([Full(s) EXCEPT !.ls = Leases(@, e.ls)], e.kv, s.rev, 0, 1)
       IN [rev |-> a.rev, nl |-> Max2(s.nl, e.nl), idx |-> a.f.idx, rv |-> a.f.rv, ls |-> a.f.ls, ap |-> e.x]
Rep0 == [rev |-> 0, nl |-> 90000, idx |-> {}, rv |-> {}, ls |-> {}, ap |-> 0]
=============================================================================
