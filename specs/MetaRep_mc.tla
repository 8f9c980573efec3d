----------------------------- MODULE MetaRep_mc -----------------------------
(* Design: a replica writes some sections of an entry one by one, the others together with the applied index (Direct: which are which).
   Crashes fall between any two writes, what was written stays and the entry is applied again; snapshots load section by section,
   the applied index last. All replicas which applied a prefix of the log hold what the prefix says. *)
EXTENDS MetaRep, TLC
CONSTANTS Direct, MaxLog
VARIABLES log, r, pos, part
None == [ep |-> <<>>, pl |-> <<>>, tn |-> <<>>, sc |-> <<>>, rg |-> <<>>, ti |-> <<>>, tb |-> <<>>, ix |-> <<>>, so |-> <<>>, rc |-> <<>>, jb |-> <<>>]
Cmd(i) == [id |-> i, s |-> 0, er |-> "", re |-> 0, cr |-> FALSE]
Job0 == [id |-> 7, nx |-> 0, tk |-> <<<<[st |-> 1, ok |-> FALSE, rt |-> 0, er |-> <<>>, c |-> <<Cmd(8)>>]>>, <<[st |-> 1, ok |-> FALSE, rt |-> 0, er |-> <<>>, c |-> <<Cmd(9)>>]>>>>]
J(o, st, mc, t) == <<[o |-> o, id |-> 7, p |-> Job0, st |-> st, mc |-> mc, t |-> t]>>
S(o, id, c, f, t, mc) == <<[o |-> o, id |-> id, c |-> c, f |-> f, t |-> t, mc |-> mc]>>
Tb(o, id) == <<[o |-> o, id |-> id, p |-> [id |-> id, sc |-> 2, nm |-> "x", dd |-> "d", rv |-> 0]]>>
Rg(o, id, v, s, e) == [o |-> o, id |-> id, p |-> [id |-> id, rv |-> 0, v |-> v, s |-> s, e |-> e, lt |-> s < e, d |-> ""]]
Rc(o, st) == <<[o |-> o, id |-> 8, p |-> [id |-> 8, st |-> st, jb |-> 7, er |-> "e", d |-> ""]]>>
Entries == {
  [None EXCEPT !.ep = <<[o |-> "U", id |-> 1, v |-> 5]>>, !.tb = Tb("C", 11)], [None EXCEPT !.tb = Tb("D", 11), !.ix = Tb("C", 12)], [None EXCEPT !.tb = Tb("U", 11)],
  [None EXCEPT !.tn = <<[o |-> "U", id |-> 3, p |-> [id |-> 3, sp |-> 4, rl |-> 0, ut |-> 1, nm |-> "", rv |-> 0]]>>],
  [None EXCEPT !.jb = J("C", <<>>, 0, 0), !.so = S("C", 1, <<8>>, 0, 0, 0), !.rc = Rc("C", 1)],
  [None EXCEPT !.jb = J("M", <<[c |-> 8, s |-> STATUS_FAIL, er |-> "e"]>>, 0, 0)], [None EXCEPT !.jb = J("M", <<[c |-> 8, s |-> STATUS_DONE, er |-> ""]>>, 0, 0), !.so = S("D", 1, <<8>>, 0, 0, 0), !.rc = Rc("D", 1)],
  [None EXCEPT !.jb = J("M", <<>>, 8, 2), !.so = S("M", 0, <<>>, 1, 2, 8)], [None EXCEPT !.jb = J("D", <<>>, 0, 0), !.rc = Rc("U", 1)],
  [None EXCEPT !.so = S("C", 2, <<>>, 0, 0, 0)],
  [None EXCEPT !.rg = <<Rg("U", 21, 2, 3, 5), Rg("U", 22, 2, 1, 3)>>], [None EXCEPT !.rg = <<Rg("U", 21, 2, 4, 5)>>], [None EXCEPT !.rg = <<Rg("D", 22, 2, 1, 3)>>] }
S0 == [ap |-> 0, at |-> 0, ep |-> {}, pl |-> {}, tn |-> {[id |-> 3, sp |-> 2, rl |-> 0, ut |-> 0, nm |-> "", rv |-> 0]}, sc |-> {[id |-> 2, rv |-> 0, tb |-> <<>>, ix |-> <<>>]}, rg |-> {Rg("C", 21, 1, 1, 5).p, Rg("C", 22, 1, 1, 3).p},
       ti |-> {}, tb |-> {}, ix |-> {}, so |-> {}, rc |-> {}, jb |-> {}]
Of(e, n) == [n |-> n, t |-> 1, ep |-> e.ep, pl |-> e.pl, tn |-> e.tn, sc |-> e.sc, rg |-> e.rg, ti |-> e.ti, tb |-> e.tb, ix |-> e.ix, so |-> e.so, rc |-> e.rc, jb |-> e.jb]
After(n) == FoldLeft(LAMBDA s, k : ApplyEntry(s, Of(log[k], k)), S0, [k \in 1..n |-> k])
Init == log = <<>> /\ r = S0 /\ pos = 0 /\ part = FALSE
Write == Len(log) < MaxLog /\ \E e \in Entries : log' = Append(log, e) /\ UNCHANGED <<r, pos, part>>
Apply == pos < Len(log) /\ r' = ApplyEntry(r, Of(log[pos + 1], pos + 1)) /\ pos' = pos + 1 /\ part' = FALSE /\ UNCHANGED log
Crash == \* the sections of W are on disk, the applied index and what goes with it are not
  /\ pos < Len(log) /\ ~part
  /\ LET a == ApplyEntry(r, Of(log[pos + 1], pos + 1)) IN \E W \in SUBSET {f \in Direct : a[f] # r[f]} : r' = [f \in DOMAIN r |-> IF f \in W THEN a[f] ELSE r[f]]
  /\ part' = TRUE /\ UNCHANGED <<log, pos>>
Install == \E n \in (pos + 1)..Len(log) : r' = After(n) /\ pos' = n /\ part' = FALSE /\ UNCHANGED log
Next == Write \/ Apply \/ Crash \/ Install
Agree == ~part => r = After(pos)
SafeForward == \A n \in 1..Len(log) : LET a == After(n - 1) b == After(n) IN (\A x \in a.tn : \A y \in b.tn : x.id = y.id => x.sp <= y.sp) /\ (\A x \in a.ep : \E y \in b.ep : y.id = x.id /\ y.v >= x.v)
=============================================================================
