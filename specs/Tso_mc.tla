------------------------------- MODULE Tso_mc -------------------------------
(* The oracle as a system: replicas, a raft log (a leader has applied everything committed when it starts), leaders that do not know
   they were replaced, lost and late proposals, snapshots that carry only the promised physical part, clients that adjust the clock. *)
EXTENDS Tso, TLC
CONSTANTS Nodes, MaxP, MaxTerm, MaxLog, Counts, Adjust, MaxGiven
VARIABLES nd, ap, log, pend, term, given
vars == <<nd, ap, log, pend, term, given>>
Init == nd = [n \in Nodes |-> Node0] /\ ap = [n \in Nodes |-> 0] /\ log = <<>> /\ pend = [n \in Nodes |-> <<>>] /\ term = 0 /\ given = {}
Ap(n, e) == ApplyTso(n, e.x, e.t)
Lead(n) == /\ term < MaxTerm /\ ap[n] = Len(log) /\ nd[n].lt = 0
           /\ term' = term + 1 /\ nd' = [nd EXCEPT ![n].lt = term + 1]
           /\ pend' = [pend EXCEPT ![n] = <<>>] /\ UNCHANGED <<ap, log, given>>
Upd(ph, sv) == [op |-> "upd", ph |-> ph, lo |-> 0, sv |-> sv, force |-> FALSE]
Propose(n) == /\ nd[n].lt > 0 /\ Len(pend[n]) < 1
              /\ \E ph \in 1..MaxP : \E sv \in ph..MaxP :
                   /\ SafeProposal(nd[n], Upd(ph, sv)) /\ (nd[n].sy # nd[n].lt => ph > nd[n].sv)
                   /\ pend' = [pend EXCEPT ![n] = Append(@, Upd(ph, sv))]
              /\ UNCHANGED <<nd, ap, log, term, given>>
Client(n) == /\ Adjust /\ nd[n].lt > 0 /\ Len(pend[n]) < 1
             /\ \E ph \in 1..MaxP : \E sv \in ph..MaxP : \E lo \in 0..1 : \E o \in {"upd", "reset"} : pend' = [pend EXCEPT ![n] = Append(@, [op |-> o, ph |-> ph, lo |-> lo, sv |-> sv, force |-> FALSE])]
             /\ UNCHANGED <<nd, ap, log, term, given>>
Commit(n) == /\ nd[n].lt = term /\ term > 0 /\ pend[n] # <<>> /\ Len(log) < MaxLog /\ ap[n] = Len(log)
             /\ LET e == [x |-> pend[n][1], t |-> term] IN
                  /\ log' = Append(log, e) /\ ap' = [ap EXCEPT ![n] = @ + 1] /\ nd' = [nd EXCEPT ![n] = Ap(@, e)]
             /\ pend' = [pend EXCEPT ![n] = Tail(@)] /\ UNCHANGED <<term, given>>
Deliver(n) == /\ ap[n] < Len(log) /\ (nd[n].lt > 0 => nd[n].lt < term)   \* a replaced leader hears of it before it applies the new leader's entries
              /\ LET e == log[ap[n] + 1] IN nd' = [nd EXCEPT ![n] = Ap([@ EXCEPT !.lt = 0], e)]
              /\ ap' = [ap EXCEPT ![n] = @ + 1] /\ pend' = [pend EXCEPT ![n] = <<>>] /\ UNCHANGED <<log, term, given>>
Orphan(n) == /\ nd[n].lt = term /\ term > 0 /\ pend[n] # <<>> /\ Len(log) < MaxLog /\ ap[n] = Len(log)   \* committed, but its leader is gone before it knows
             /\ log' = Append(log, [x |-> pend[n][1], t |-> term]) /\ nd' = [nd EXCEPT ![n].lt = 0] /\ pend' = [pend EXCEPT ![n] = <<>>] /\ UNCHANGED <<ap, term, given>>
Stop(n) == nd[n].lt > 0 /\ nd' = [nd EXCEPT ![n].lt = 0] /\ pend' = [pend EXCEPT ![n] = <<>>] /\ UNCHANGED <<ap, log, term, given>>
Sv(k) == LET f[j \in 0..k] == IF j = 0 THEN Node0 ELSE Ap(f[j-1], log[j]) IN f[k].sv
Restart(n) == /\ \E k \in 0..ap[n] : nd' = [nd EXCEPT ![n] = [Node0 EXCEPT !.sv = Sv(k)]] /\ ap' = [ap EXCEPT ![n] = k]
              /\ pend' = [pend EXCEPT ![n] = <<>>] /\ UNCHANGED <<log, term, given>>
Gen(n) == \E c \in Counts : /\ CanGen(nd[n], c) /\ Cardinality(given) < MaxGiven
                            /\ given' = given \cup {[t |-> nd[n].lt, ph |-> nd[n].ph, lo |-> nd[n].lo, hi |-> nd[n].lo + c]}
                            /\ nd' = [nd EXCEPT ![n] = AfterGen(@, c)] /\ UNCHANGED <<ap, log, pend, term>>
Next == \E n \in Nodes : Lead(n) \/ Propose(n) \/ Client(n) \/ Commit(n) \/ Deliver(n) \/ Orphan(n) \/ Stop(n) \/ Restart(n) \/ Gen(n)
Spec == Init /\ [][Next]_vars
\* handed out once, growing with the leaders; nothing beyond what the log promises
Unique == \A a, b \in given : a = b \/ Below(a, b) \/ Below(b, a)
Grows == \A a, b \in given : a.t < b.t => Below(a, b)
Promised == \A a \in given : a.ph <= Sv(Len(log))
Sym == Permutations(Nodes)
=============================================================================
