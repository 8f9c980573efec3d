----------------------------- MODULE KvRep_mc -----------------------------
(* Model checking of replication: two replicas applying one log at their own pace, starting over, installing snapshots. *)
EXTENDS KvRep, TLC
CONSTANTS MaxLog
VARIABLES log, a, b, snap
vars == <<log, a, b, snap>>
Kv0 == [t |-> "put", k |-> 1, v |-> 1, l |-> 0, il |-> FALSE, iv |-> FALSE, c |-> 0]
Muts == {<<>>, <<Kv0>>, <<[Kv0 EXCEPT !.l = 1]>>, <<[Kv0 EXCEPT !.v = 2, !.il = TRUE]>>, <<[Kv0 EXCEPT !.t = "del"]>>, <<[Kv0 EXCEPT !.t = "del"], [Kv0 EXCEPT !.t = "del", !.k = 2]>>, <<[Kv0 EXCEPT !.k = 2]>>} \cup {<<[Kv0 EXCEPT !.t = "comp", !.c = c]>> : c \in 1..3}
LeaseOps == {<<>>, <<[id |-> 1, op |-> "c", ttl |-> 3, rn |-> 0]>>, <<[id |-> 1, op |-> "d", ttl |-> 0, rn |-> 0]>>, <<[id |-> 1, op |-> "u", ttl |-> 3, rn |-> 1]>>}
Entries == {[x |-> Len(log) + 1, kv |-> m, ls |-> l, nl |-> n, empty |-> FALSE] : m \in Muts, l \in LeaseOps, n \in {0, 90001}} 
Init == log = <<>> /\ a = Rep0 /\ b = Rep0 /\ snap = Rep0
Append1 == Len(log) < MaxLog /\ \E e \in Entries : (IF e.kv # <<>> /\ e.ls # <<>> THEN e.ls[1].op = "d" ELSE TRUE) /\ (e.nl # 0 => e.ls # <<>>) /\ log' = Append(log, e) /\ UNCHANGED <<a, b, snap>>
ApplyA == \E n \in DOMAIN log : n <= a.ap + 1 /\ a' = ApplyEntry(a, log[n]) /\ UNCHANGED <<log, b, snap>>
ApplyB == \E n \in DOMAIN log : n <= b.ap + 1 /\ b' = ApplyEntry(b, log[n]) /\ UNCHANGED <<log, a, snap>>
Save == snap' = a /\ UNCHANGED <<log, a, b>>
Install == b' = (IF snap.ap <= b.ap THEN b ELSE snap) /\ UNCHANGED <<log, a, snap>>
Next == Append1 \/ ApplyA \/ ApplyB \/ Save \/ Install
Spec == Init /\ [][Next]_vars
Same == a.ap = b.ap => a = b
SoundRep(s) == {q.r : q \in s.rv} = UNION {RevsOf(x.g) : x \in s.idx} /\ \A q \in s.rv : q.r[1] <= s.rev
Inv == Same /\ SoundRep(a) /\ SoundRep(b)
Mono == [][a'.ap >= a.ap /\ b'.ap >= b.ap /\ a'.rev >= a.rev /\ b'.rev >= b.rev /\ b'.nl >= b.nl]_vars
=============================================================================
