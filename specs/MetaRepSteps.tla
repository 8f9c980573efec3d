---------------------------- MODULE MetaRepSteps ----------------------------
(* Conformance: what replicas of the real coordinator hold after applying an entry (again, after crashes, after snapshots). *)
EXTENDS MetaRep, Json, IOUtils, TLC
VARIABLES i, ph
Raw == ndJsonDeserialize(IOEnv.TRACE)
S0 == SelectSeq(Raw, LAMBDA x : "st" \in DOMAIN x)
E0 == SelectSeq(Raw, LAMBDA x : "en" \in DOMAIN x)
M0 == SelectSeq(Raw, LAMBDA x : "mp" \in DOMAIN x)
T0 == SelectSeq(Raw, LAMBDA x : "o" \in DOMAIN x)
St(n) == LET q == S0[n].st IN [q EXCEPT !.ep = ToSet(@), !.pl = ToSet(@), !.tn = ToSet(@), !.sc = ToSet(@), !.rg = ToSet(@), !.ti = {[x EXCEPT !.ids = ToSet(@)] : x \in ToSet(@)}, !.tb = ToSet(@), !.ix = ToSet(@), !.so = ToSet(@), !.rc = ToSet(@), !.jb = ToSet(@)]
Mp(n) == LET q == M0[n].mp IN [q EXCEPT !.ep = ToSet(@), !.sn = ToSet(@), !.tn = ToSet(@), !.xn = ToSet(@), !.rm = ToSet(@), !.rd = ToSet(@), !.ks = ToSet(@), !.kt = ToSet(@), !.kx = ToSet(@)]
Want(e) == CASE e.o = "apply" -> ApplyEntry(St(e.n), E0[e.x].en) [] e.o = "redo" -> ApplyEntry(St(e.n), E0[e.x].en) [] e.o = "install" -> (IF St(e.x).ap <= St(e.n).ap THEN St(e.n) ELSE St(e.x)) [] e.o = "same" -> St(e.n)
Diff(a, b) == {<<f, IF f \in {"ap", "at"} THEN a[f] ELSE a[f] \ b[f], IF f \in {"ap", "at"} THEN b[f] ELSE b[f] \ a[f]>> : f \in {g \in DOMAIN a : a[g] # b[g]}}
Init == i \in DOMAIN T0 /\ ph = 0
Bad(e) == LET d == Diff(St(e.p), Want(e)) IN PrintT(<<"BAD", "metarep-" \o e.o \o "-" \o (CHOOSE x \in d : TRUE)[1], i, "section, code, spec", d, "entry", IF e.o \in {"apply", "redo"} THEN E0[e.x].en ELSE e.x>>)
BadMap(e) == PrintT(<<"BAD", "metarep-maps", i, "regions", {<<r.id, r.s, r.e>> : r \in St(e.n).rg}, "maps", Mp(e.p)>>)
Next == /\ ph = 0 /\ ph' = 1 /\ i' = i
        /\ IF T0[i].o = "maps" THEN (IF MapsOk(St(T0[i].n), Mp(T0[i].p)) THEN TRUE ELSE BadMap(T0[i])) ELSE IF Want(T0[i]) = St(T0[i].p) THEN TRUE ELSE Bad(T0[i])
=============================================================================
