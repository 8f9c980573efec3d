-------------------------------- MODULE Cat --------------------------------
(* The catalogue of the coordinator: tenants, their schemas, the tables and indexes in them; what each request answers and leaves.
   A table made together with its indexes (k) lists them; indexes belong to such a table (tb) or stand alone (tb = 0). *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[j] : j \in 1..Len(q)}
Cat0 == [tn |-> {[id |-> 0, nm |-> "root"]}, sc |-> {[id |-> 0, tn |-> 0, nm |-> "ROOT"], [id |-> 2, tn |-> 0, nm |-> "DINGO"]}, tb |-> {}, ix |-> {}, nx |-> 60000, ns |-> 50000]
Ids(S) == {x.id : x \in S}
Get(S, id) == CHOOSE x \in S : x.id = id
Tenant(s, t) == t = 0 \/ t \in Ids(s.tn)
Res(ok, st) == [ok |-> ok, st |-> st]
No(s) == Res(FALSE, s)
SchemaEmpty(s, id) == ~\E x \in s.tb \cup s.ix : x.sc = id
CanTable(s, sc, nm, id) == sc # 0 /\ sc \in Ids(s.sc) /\ id \notin Ids(s.tb) /\ ~\E x \in s.tb : x.sc = sc /\ x.nm = nm
CanIndex(s, sc, nm, id) == sc # 0 /\ sc \in Ids(s.sc) /\ id \notin Ids(s.ix) /\ ~\E x \in s.ix : x.sc = sc /\ x.nm = nm
Table(sc, nm, id, k) == [id |-> id, sc |-> sc, nm |-> nm, k |-> k]
Index(sc, nm, id, tb) == [id |-> id, sc |-> sc, nm |-> nm, tb |-> tb]
RECURSIVE AddAll(_, _, _, _)
AddAll(s, sc, tb, q) == IF q = <<>> THEN Res(TRUE, s) ELSE IF CanIndex(s, sc, q[1].nm, q[1].id) THEN AddAll([s EXCEPT !.ix = @ \cup {Index(sc, q[1].nm, q[1].id, tb)}], sc, tb, Tail(q)) ELSE No(s)
CanDrop(s, l) == IF l.t THEN \E x \in s.tb : x.id = l.id /\ x.sc = l.sc /\ x.k ELSE \E x \in s.ix : x.id = l.id /\ x.sc = l.sc
Ask(s, v) ==
  CASE v.o = "tcreate" -> IF v.id = 0 THEN Res(TRUE, s) ELSE IF v.id \in Ids(s.tn) THEN No(s) ELSE Res(TRUE, [s EXCEPT !.tn = @ \cup {[id |-> v.id, nm |-> v.nm]}])
    [] v.o = "tdrop" -> IF v.id = 0 \/ v.id \notin Ids(s.tn) \/ (\E x \in s.sc : x.tn = v.id) THEN No(s) ELSE Res(TRUE, [s EXCEPT !.tn = {x \in @ : x.id # v.id}])
    [] v.o = "tupdate" -> IF v.id = 0 \/ v.id \notin Ids(s.tn) THEN No(s) ELSE Res(TRUE, [s EXCEPT !.tn = {IF x.id = v.id THEN [x EXCEPT !.nm = v.nm] ELSE x : x \in @}])
    [] v.o = "screate" -> IF ~Tenant(s, v.tn) \/ (\E x \in s.sc : x.tn = v.tn /\ x.nm = v.nm) THEN No(s) ELSE Res(TRUE, [s EXCEPT !.sc = @ \cup {[id |-> v.id, tn |-> v.tn, nm |-> v.nm]}])
    [] v.o = "sdrop" -> IF ~Tenant(s, v.tn) \/ v.id \notin Ids(s.sc) \/ ~SchemaEmpty(s, v.id) THEN No(s) ELSE Res(TRUE, [s EXCEPT !.sc = {x \in @ : x.id # v.id}])
    [] v.o = "sname" -> Res(\E x \in s.sc : x.tn = v.tn /\ x.nm = v.nm, s)
    [] v.o = "bcreate" -> IF CanTable(s, v.sc, v.nm, v.id) THEN Res(TRUE, [s EXCEPT !.tb = @ \cup {Table(v.sc, v.nm, v.id, FALSE)}]) ELSE No(s)
    [] v.o = "bdrop" -> IF \E x \in s.tb : x.id = v.id /\ x.sc = v.sc /\ ~x.k THEN Res(TRUE, [s EXCEPT !.tb = {x \in @ : x.id # v.id}]) ELSE No(s)
    [] v.o = "bname" -> Res(\E x \in s.tb : x.sc = v.sc /\ x.nm = v.nm, s)
    [] v.o = "icreate" -> IF CanIndex(s, v.sc, v.nm, v.id) THEN Res(TRUE, [s EXCEPT !.ix = @ \cup {Index(v.sc, v.nm, v.id, 0)}]) ELSE No(s)
    [] v.o = "idrop" -> IF \E x \in s.ix : x.id = v.id /\ x.sc = v.sc /\ x.tb = 0 THEN Res(TRUE, [s EXCEPT !.ix = {x \in @ : x.id # v.id}]) ELSE No(s)
    [] v.o = "iname" -> Res(\E x \in s.ix : x.sc = v.sc /\ x.nm = v.nm, s)
    [] v.o = "btcreate" -> IF ~CanTable(s, v.sc, v.nm, v.id) THEN No(s)
                           ELSE LET r == AddAll([s EXCEPT !.tb = @ \cup {Table(v.sc, v.nm, v.id, TRUE)}], v.sc, v.id, v.xs) IN IF r.ok THEN r ELSE No(s)
    [] v.o = "btdrop" -> IF \E j \in 1..Len(v.l) : ~CanDrop(s, v.l[j]) THEN No(s)
                         ELSE LET T == {v.l[j].id : j \in {j \in 1..Len(v.l) : v.l[j].t}} X == {v.l[j].id : j \in {j \in 1..Len(v.l) : ~v.l[j].t}} IN
                              Res(TRUE, [s EXCEPT !.tb = {x \in @ : x.id \notin T}, !.ix = {x \in @ : x.id \notin X /\ (x.tb = 0 \/ x.tb \notin T)}])
    [] v.o = "xadd" -> IF (\E x \in s.tb : x.id = v.tb /\ x.k /\ CanIndex(s, x.sc, v.nm, v.id)) THEN Res(TRUE, [s EXCEPT !.ix = @ \cup {Index(Get(s.tb, v.tb).sc, v.nm, v.id, v.tb)}]) ELSE No(s)
    [] v.o = "xdrop" -> IF (\E x \in s.ix : x.id = v.id /\ x.tb = v.tb /\ v.tb # 0) THEN Res(TRUE, [s EXCEPT !.ix = {x \in @ : x.id # v.id}]) ELSE No(s)
    [] OTHER -> Res(TRUE, s)                          \* another leader; a restart
\* what must hold of every catalogue
Inv(s) ==
  /\ \A x, y \in s.sc : x.tn = y.tn /\ x.nm = y.nm => x = y
  /\ \A x, y \in s.tb : x.sc = y.sc /\ x.nm = y.nm => x = y
  /\ \A x, y \in s.ix : x.sc = y.sc /\ x.nm = y.nm => x = y
  /\ Cardinality(Ids(s.sc)) = Cardinality(s.sc) /\ Cardinality(Ids(s.tb)) = Cardinality(s.tb) /\ Cardinality(Ids(s.ix)) = Cardinality(s.ix)
  /\ \A x \in s.sc : Tenant(s, x.tn)
  /\ \A x \in s.tb \cup s.ix : x.sc \in Ids(s.sc)
  /\ \A x \in s.ix : x.tb # 0 => \E y \in s.tb : y.id = x.tb /\ y.sc = x.sc /\ y.k
=============================================================================
