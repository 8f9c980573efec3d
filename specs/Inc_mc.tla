------------------------------- MODULE Inc_mc -------------------------------
(* The counters as a system: requests are checked by a leader against what it has applied, and applied later, in the order of the log. *)
EXTENDS Inc, TLC
CONSTANTS Nodes, Tabs, MaxLog, MaxPend, MaxTerm, Reqs
VARIABLES m, ap, log, pend, lt, term, fl, low
vars == <<m, ap, log, pend, lt, term, fl, low>>
Zero == <<0, 0>>
Init == m = [n \in Nodes |-> <<>>] /\ ap = [n \in Nodes |-> 0] /\ log = <<>> /\ pend = [n \in Nodes |-> <<>>] /\ lt = [n \in Nodes |-> 0] /\ term = 0 /\ fl = [t \in Tabs |-> Zero] /\ low = FALSE
Lead(n) == term < MaxTerm /\ ap[n] = Len(log) /\ lt[n] = 0 /\ term' = term + 1 /\ lt' = [lt EXCEPT ![n] = term + 1] /\ pend' = [pend EXCEPT ![n] = <<>>] /\ UNCHANGED <<m, ap, log, fl, low>>
Ask(n) == /\ lt[n] > 0 /\ Len(pend[n]) < MaxPend
          /\ \E q \in Reqs : LET a == Admit(m[n], q) IN a.r = "go" /\ a.xs # <<>> /\ pend' = [pend EXCEPT ![n] = Append(@, [xs |-> a.xs, force |-> q.force])]
          /\ UNCHANGED <<m, ap, log, lt, term, fl, low>>
Logged(n, e) == /\ log' = Append(log, e)
                /\ fl' = Floor(fl, m[n], e.xs, e.force)
                /\ low' = (low \/ (e.xs[1].op = "gen" /\ Has(m[n], e.xs[1].t) /\ Less(m[n][e.xs[1].t], fl[e.xs[1].t])))
Commit(n) == /\ lt[n] = term /\ term > 0 /\ pend[n] # <<>> /\ ap[n] = Len(log) /\ Len(log) < MaxLog /\ Logged(n, pend[n][1])
             /\ m' = [m EXCEPT ![n] = ApplyAll(@, pend[n][1].xs)] /\ ap' = [ap EXCEPT ![n] = @ + 1] /\ pend' = [pend EXCEPT ![n] = Tail(@)] /\ UNCHANGED <<lt, term>>
Orphan(n) == /\ lt[n] = term /\ term > 0 /\ pend[n] # <<>> /\ ap[n] = Len(log) /\ Len(log) < MaxLog /\ Logged(n, pend[n][1])
             /\ lt' = [lt EXCEPT ![n] = 0] /\ pend' = [pend EXCEPT ![n] = <<>>] /\ UNCHANGED <<m, ap, term>>
Deliver(n) == /\ ap[n] < Len(log) /\ (lt[n] > 0 => lt[n] < term) /\ m' = [m EXCEPT ![n] = ApplyAll(@, log[ap[n] + 1].xs)] /\ ap' = [ap EXCEPT ![n] = @ + 1]
              /\ lt' = [lt EXCEPT ![n] = 0] /\ pend' = [pend EXCEPT ![n] = <<>>] /\ UNCHANGED <<log, term, fl, low>>
Next == \E n \in Nodes : Lead(n) \/ Ask(n) \/ Commit(n) \/ Orphan(n) \/ Deliver(n)
Spec == Init /\ [][Next]_vars
\* no number of a table twice
Once == ~low
Counter == \A n \in Nodes : ap[n] = Len(log) => \A t \in DOMAIN m[n] : ~Less(m[n][t], fl[t])
Agree == \A a, b \in Nodes : ap[a] = ap[b] => m[a] = m[b]
R(op, s, f, c, inc, off) == [op |-> op, t |-> 1, s |-> <<0, s>>, force |-> f, c |-> c, inc |-> inc, off |-> off, g |-> <<>>]
SmallReqs == {R("gen", 0, FALSE, 2, 1, 1), R("gen", 0, FALSE, 1, 3, 2), R("create", 1, FALSE, 0, 0, 0), R("create", 4, FALSE, 0, 0, 0), R("set", 3, FALSE, 0, 0, 0), R("set", 6, FALSE, 0, 0, 0), R("set", 1, TRUE, 0, 0, 0), R("delete", 0, FALSE, 0, 0, 0)}
=============================================================================
