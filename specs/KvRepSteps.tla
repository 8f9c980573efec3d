----------------------------- MODULE KvRepSteps -----------------------------
(* Conformance: what replicas of the real store hold after applying (again, after crashes, after snapshots). *)
EXTENDS KvRep, Json, IOUtils, TLC
VARIABLES i, ph
Raw == ndJsonDeserialize(IOEnv.TRACE)
S0 == SelectSeq(Raw, LAMBDA x : "st" \in DOMAIN x)
E0 == SelectSeq(Raw, LAMBDA x : "en" \in DOMAIN x)
T0 == SelectSeq(Raw, LAMBDA x : ~("st" \in DOMAIN x) /\ ~("en" \in DOMAIN x))
St(n) == LET q == S0[n].st IN [q EXCEPT !.idx = ToSet0(@), !.rv = ToSet0(@), !.ls = ToSet0(@)]
Want(e) == CASE e.o = "apply" -> ApplyEntry(St(e.n), E0[e.x].en) [] e.o = "install" -> (IF St(e.x).ap <= St(e.n).ap THEN St(e.n) ELSE St(e.x)) [] e.o = "same" -> St(e.n)
Init == i \in DOMAIN T0 /\ ph = 0
Bad(e) == PrintT(<<"BAD", "kvrep-" \o e.o, i, "before", St(e.n), "entry", IF e.o = "apply" THEN E0[e.x].en ELSE e.x, "after", St(e.p), "spec", Want(e)>>)
Next == /\ ph = 0 /\ ph' = 1 /\ i' = i
        /\ IF Want(T0[i]) = St(T0[i].p) THEN TRUE ELSE Bad(T0[i])
=============================================================================
