-------------------------------- MODULE Tso --------------------------------
(* The timestamp oracle: replicas of one log of window extensions; the leader hands out (physical, logical) intervals from memory. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxL   \* logical parts stay below
\* node: [ph, lo, sv (largest physical part promised in the log), lt (leader term, 0 follower), sy (term of the last window extension this node may serve from)]
Node0 == [ph |-> 0, lo |-> 0, sv |-> 0, lt |-> 0, sy |-> 0]
\* entry: [op "upd" / "reset" / "other", ph, lo, sv, force]
Refused(n, x) == (x.sv < n.sv \/ x.ph < n.ph) /\ ~(x.op = "reset" /\ x.force)
Forced(n, x) == x.op = "reset" /\ x.force /\ x.sv > 0
Takes(n, x) == x.op \in {"upd", "reset"} /\ ~Refused(n, x) /\ (x.op = "reset" => x.sv > 0)
ApplyTso(n, x, term) ==
  IF ~Takes(n, x) THEN n
  ELSE [n EXCEPT !.sv = x.sv, !.ph = x.ph,
                 !.lo = IF x.ph = n.ph /\ ~Forced(n, x) /\ n.lo > x.lo THEN n.lo ELSE x.lo,
                 !.sy = IF x.ph > n.sv \/ Forced(n, x) THEN term ELSE n.sy]
\* a window extension which a leader may propose by itself
SafeProposal(n, x) == x.op = "upd" /\ x.sv >= x.ph /\ (x.ph > n.ph) /\ x.lo = 0
CanGen(n, c) == n.lt > 0 /\ n.sy = n.lt /\ c > 0 /\ n.ph > 0 /\ n.lo + c < MaxL
AfterGen(n, c) == [n EXCEPT !.lo = @ + c]
\* handed out: [t (term of the leader), ph, lo, hi (exclusive)]
Below(a, b) == a.ph < b.ph \/ (a.ph = b.ph /\ a.hi <= b.lo)
Fresh(given, g) == \A a \in given : IF a.t <= g.t THEN Below(a, g) ELSE Below(g, a)
=============================================================================
