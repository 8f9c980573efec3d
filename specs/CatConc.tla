------------------------------ MODULE CatConc ------------------------------
(* Conformance: two requests at the same time answer and leave what one after the other would have, in one order or the other. *)
EXTENDS Cat, Json, IOUtils, TLC
VARIABLES i, ph
T0 == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE Fold(_, _)
Fold(s, q) == IF q = <<>> THEN s ELSE Fold(Ask(s, q[1]).st, Tail(q))
Shows(s, z) ==
  /\ Range(z.tn) = s.tn
  /\ {[id |-> x.id, tn |-> x.tn, nm |-> x.nm] : x \in Range(z.sc)} = s.sc
  /\ \A x \in Range(z.sc) : Range(x.tb) = {y.id : y \in {y \in s.tb : y.sc = x.id}} /\ Range(x.ix) = {y.id : y \in {y \in s.ix : y.sc = x.id}}
  /\ \A x \in Range(z.tb) : LET y == Get(s.tb, x.id) IN y.k => Range(x.ix) = {w.id : w \in {w \in s.ix : w.tb = x.id}}
Answer(s, v) == Ask(s, v).ok = (v.e = "ok") /\ (v.o = "sname" /\ v.e = "ok" => \E x \in s.sc : x.id = v.id /\ x.tn = v.tn /\ x.nm = v.nm)
                /\ (v.o = "bname" /\ v.e = "ok" => \E x \in s.tb : x.id = v.id /\ x.sc = v.sc /\ x.nm = v.nm) /\ (v.o = "iname" /\ v.e = "ok" => \E x \in s.ix : x.id = v.id /\ x.sc = v.sc /\ x.nm = v.nm)
\* two requests which drop the same thing at the same time may both be told that it is gone
Drops == {"sdrop", "bdrop", "idrop", "btdrop", "xdrop", "tdrop"}
Still(s, l) == IF l.t THEN l.id \in Ids(s.tb) ELSE l.id \in Ids(s.ix)
Gone(s, v) == CASE v.o = "sdrop" -> v.id \notin Ids(s.sc) [] v.o = "bdrop" -> v.id \notin Ids(s.tb) [] v.o = "tdrop" -> v.id \notin Ids(s.tn) [] v.o \in {"idrop", "xdrop"} -> v.id \notin Ids(s.ix) [] OTHER -> FALSE
Rest(s, v) == [v EXCEPT !.l = SelectSeq(@, LAMBDA l : Still(s, l))]
Second(s, v) == IF v.o = "btdrop" /\ v.e = "ok" THEN Ask(s, Rest(s, v)) ELSE IF v.o \in Drops /\ v.e = "ok" /\ Gone(s, v) THEN Res(TRUE, s) ELSE Ask(s, v)
Answer2(s, v) == IF v.o \in Drops THEN Second(s, v).ok = (v.e = "ok") ELSE Answer(s, v)
\* a create may be refused because of the name another create, which itself fails in the end, holds meanwhile
Creates == {"screate", "bcreate", "icreate", "btcreate", "xadd"}
Held(a, b) == a.o \in Creates /\ b.o \in Creates /\ a.e = "err" /\ b.e = "err"
Order(s, a, b, z) == Answer(s, a) /\ LET t == Ask(s, a).st IN (IF a.o \in Drops /\ b.o \in Drops THEN Answer2(t, b) ELSE Answer(t, b)) /\ Shows(IF a.o \in Drops /\ b.o \in Drops THEN Second(t, b).st ELSE Ask(t, b).st, z)
Ids2(a, b) == ~("ids" \in DOMAIN a /\ "ids" \in DOMAIN b) \/ Range(a.ids) \cap Range(b.ids) = {}
Init == i \in DOMAIN T0 /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ i' = i
        /\ LET e == T0[i] s == Fold(Cat0, e.h) IN
           IF "died" \in DOMAIN e THEN PrintT(<<"BAD", "catc-" \o e.died, i>>)
           ELSE IF ((Held(e.a, e.b) /\ Shows(s, e.z)) \/ Order(s, e.a, e.b, e.z) \/ Order(s, e.b, e.a, e.z)) /\ Ids2(e.a, e.b) THEN TRUE
           ELSE PrintT(<<"BAD", "catc-" \o e.a.o \o "-" \o e.b.o, i, e.a, e.b, "state", s, "after", e.z>>)
=============================================================================
