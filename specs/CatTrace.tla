------------------------------ MODULE CatTrace ------------------------------
(* Conformance: every request to the coordinator's meta service, its answer, and the catalogue the services show afterwards. *)
EXTENDS Cat, Json, IOUtils, TLC
VARIABLES i, ps, s
Raw0 == ndJsonDeserialize(IOEnv.TRACE)
Once(q) == Cardinality(Range(q)) = Len(q)
Shown(s0, z) ==
  IF Range(z.tn) # s0.tn THEN "tenants"
  ELSE IF {[id |-> x.id, tn |-> x.tn, nm |-> x.nm] : x \in Range(z.sc)} # s0.sc THEN "schemas"
  ELSE IF \E x \in Range(z.sc) : ~Once(x.tb) \/ ~Once(x.ix) THEN "listed-twice"
  ELSE IF \E x \in Range(z.sc) : Range(x.tb) # {y.id : y \in {y \in s0.tb : y.sc = x.id}} THEN "tables-of-schema"
  ELSE IF \E x \in Range(z.sc) : Range(x.ix) # {y.id : y \in {y \in s0.ix : y.sc = x.id}} THEN "indexes-of-schema"
  ELSE IF \E x \in Range(z.tb) : LET y == Get(s0.tb, x.id) IN y.k /\ (x.nm # y.nm \/ ~Once(x.ix) \/ Range(x.ix) # {w.id : w \in {w \in s0.ix : w.tb = x.id}}) THEN "table"
  ELSE IF \E x \in Range(z.ix) : x.nm # Get(s0.ix, x.id).nm THEN "index"
  ELSE ""
HasIds(v) == "ids" \in DOMAIN v
Fresh(s0, v) == HasIds(v) => \A j \in 1..Len(v.ids) : v.ids[j] > s0.nx /\ (j > 1 => v.ids[j] > v.ids[j - 1])
Step(s0, v) ==
  LET r == Ask(s0, v)
      n == IF HasIds(v) THEN [r.st EXCEPT !.nx = v.ids[Len(v.ids)]] ELSE IF v.o = "screate" /\ v.e = "ok" THEN [r.st EXCEPT !.ns = v.id] ELSE r.st
      b == IF r.ok # (v.e = "ok") THEN (IF r.ok THEN "refused" ELSE "accepted")
           ELSE IF ~Fresh(s0, v) \/ (v.o = "screate" /\ v.e = "ok" /\ v.id <= s0.ns) THEN "id-again"
           ELSE IF v.o = "sname" /\ r.ok /\ v.id # (CHOOSE x \in s0.sc : x.tn = v.tn /\ x.nm = v.nm).id THEN "name-of-another"
           ELSE IF v.o = "bname" /\ r.ok /\ v.id # (CHOOSE x \in s0.tb : x.sc = v.sc /\ x.nm = v.nm).id THEN "name-of-another"
           ELSE IF v.o = "iname" /\ r.ok /\ v.id # (CHOOSE x \in s0.ix : x.sc = v.sc /\ x.nm = v.nm).id THEN "name-of-another"
           ELSE IF v.o = "tcreate" /\ r.ok /\ v.r # v.id THEN "answer"
           ELSE IF v.o \in {"bcreate", "icreate"} /\ r.ok /\ v.r # v.id THEN "answer"
           ELSE Shown(n, v.z)
  IN [st |-> n, bad |-> IF b = "" THEN IF Inv(n) THEN "" ELSE "invariant" ELSE v.o \o "-" \o b]
\* after a violation the rest of the history is skipped: its catalogue is not the specification's any more
Init == i = 0 /\ ps = 1 /\ s = Cat0
NextH == ps' = ps + 1 /\ i' = 0 /\ s' = Cat0
Next ==
  /\ ps <= Len(Raw0)
  /\ LET h == Raw0[ps].h IN
     IF i < Len(h) THEN LET r == Step(s, h[i + 1]) IN
       IF r.bad = "" THEN s' = r.st /\ i' = i + 1 /\ UNCHANGED ps
       ELSE PrintT(<<"BAD", "cat-" \o r.bad, i + 1, ps, h[i + 1], "before", s, "earlier", IF i = 0 THEN <<>> ELSE h[i].o>>) /\ NextH
     ELSE NextH
=============================================================================
