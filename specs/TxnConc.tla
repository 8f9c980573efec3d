------------------------------ MODULE TxnConc ------------------------------
(* Conformance: two requests of the real service at the same time. The outcome must be that of one of the two orders.
   Async / one-phase commits additionally choose their timestamp above every read that did not wait for them. *)
EXTENDS Txn, Json, IOUtils
VARIABLES i, ph
Raw == ndJsonDeserialize(IOEnv.TRACE)
IsSt(x) == "st" \in DOMAIN x
S0 == SelectSeq(Raw, IsSt)
T0 == SelectSeq(Raw, LAMBDA x : ~IsSt(x))
Load(st) == [l |-> SetOf(st.l), w |-> SetOf(st.w), d |-> SetOf(st.d)]
St(n) == Load(S0[n].st)
RestOf(r) == [x \in DOMAIN R0 |-> r[x]]
Reads == {"get", "bget", "scan"}
Same(s, op, res) ==
  IF op.o = "scan" THEN res.e = 0 /\ ScanOk(s, op, res.pg)
  ELSE LET o == Outcome(s, op) IN IF o.r.e # 0 THEN res.e = o.r.e ELSE RestOf(res) = o.r
\* first (its base timestamp may already include the other's access), then second; the state s -> u
Order(s, u, f, rf, g, rg, m0) ==
  \E m \in {m0, AccessTs([g EXCEPT !.mt = m0])} :
    LET f1 == [f EXCEPT !.mt = m]
        s1 == Outcome(s, f1).s
        g1 == [g EXCEPT !.mt = Max(m0, AccessTs([f EXCEPT !.mt = m0]))]
    IN Same(s, f1, rf) /\ Same(s1, g1, rg) /\ Outcome(s1, g1).s = u
\* a reader may wait for a commit in flight
TOf(op, r) == IF op.o = "scan" THEN (IF r.pg = <<>> THEN <<>> ELSE r.pg[Len(r.pg)].t) ELSE r.t
Waits(s, u, f, rf, g, rg, m0) ==
  /\ g.o \in Reads /\ f.o = "prewrite" /\ (f.onepc \/ f.sec # <<>>)
  /\ \/ rg.e = 20177   \* told to wait by error code
     \/ TOf(g, rg) # <<>> /\ LET t == TOf(g, rg)[1] IN t.y = "locked" /\ t.l.t = f.s /\ ConflictR(t.l, FALSE, g.s, g.rl)
  /\ \E m \in {m0, AccessTs([g EXCEPT !.mt = m0])} : LET f1 == [f EXCEPT !.mt = m] IN Same(s, f1, rf) /\ Outcome(s, f1).s = u
Check(e) ==
  LET s == St(e.n)  u == St(e.p)  m0 == e.a.mt IN
  IF e.ml # 0 THEN "memory-lock-left"
  ELSE IF ~(Order(s, u, e.a, e.ra, e.b, e.rb, m0) \/ Order(s, u, e.b, e.rb, e.a, e.ra, m0) \/ Waits(s, u, e.a, e.ra, e.b, e.rb, m0)) THEN "no-order"
  ELSE IF e.ra.e = 0 /\ e.rb.e = 0 /\ e.am # Max(AccessTs(e.a), AccessTs(e.b)) THEN "read-timestamp"
  ELSE ""
Init == i \in DOMAIN T0 /\ ph = 0
Nm(op) == IF op.o = "resolve" /\ op.ti # <<>> THEN "resolveall" ELSE op.o
Bad(e, c) == PrintT(<<"BAD", IF "resolveall" \in {Nm(e.a), Nm(e.b)} THEN "conc-resolveall:no-order" ELSE "conc-" \o e.a.o \o "-" \o e.b.o \o ":" \o c, i, "a", e.a, "b", e.b, "before", St(e.n), "ra", e.ra, "rb", e.rb, "after", St(e.p),
    "spec-a", Outcome(St(e.n), e.a), "spec-b", Outcome(St(e.n), e.b)>>)
Next == /\ ph = 0 /\ ph' = 1 /\ i' = i
        /\ LET c == Check(T0[i]) IN IF c = "" THEN TRUE ELSE Bad(T0[i], c)
=============================================================================
