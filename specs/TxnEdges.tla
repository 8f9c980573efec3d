------------------------------ MODULE TxnEdges ------------------------------
(* Conformance: single steps of the real service. Lines of the trace are states ([st]) or steps ([n, op, res, p, mid]);
   n and p number the state lines. *)
EXTENDS Txn, Json, IOUtils
VARIABLES i, ph
Raw == ndJsonDeserialize(IOEnv.TRACE)
IsSt(x) == "st" \in DOMAIN x
States == SelectSeq(Raw, IsSt)
Steps == SelectSeq(Raw, LAMBDA x : ~IsSt(x))
Load(st) == [l |-> SetOf(st.l), w |-> SetOf(st.w), d |-> SetOf(st.d)]
T0 == Steps
S0 == States
St(n) == Load(S0[n].st)
Reads == {"get", "bget", "scan", "scanlock"}
RestOf(r) == [x \in DOMAIN R0 |-> r[x]]
\* on errors only the code counts
SameRes(a, b) == IF b.e # 0 THEN a.e = b.e ELSE RestOf(a) = b
Check(e) ==
  LET s == St(e.n)  u == St(e.p)  op == e.op  o == Outcome(s, op) IN
  IF e.res.ml # 0 THEN "memory-lock-left"
  ELSE IF op.o \in {"scan", "scanlock"} THEN
         IF u # s THEN "writes"
         ELSE IF e.res.e # 0 THEN "error"
         ELSE IF op.o = "scan" THEN (IF ScanOk(s, op, e.res.pg) THEN "" ELSE "result")
         ELSE IF ScanLockOk(s, op, e.res.pg) THEN "" ELSE "result"
  ELSE IF op.o = "gc" THEN
         IF e.res.e # 0 THEN "error" ELSE IF ~GcSafe(s, u, op.s) THEN "read-changed"
         ELSE IF \E m \in SetOf(e.mid) : ~GcSafe(s, St(m), op.s) THEN "read-changed-midway"
         ELSE IF op.lim = 0 /\ ~GcDone(s, u, op.s) THEN "garbage-left"
         ELSE IF ~GcSafeStrict(s, u, op.s) THEN "below-newer-version" ELSE ""
  ELSE IF ~SameRes(e.res, o.r) THEN "result"
  ELSE IF u # o.s THEN "state"
  ELSE IF e.mid # <<>> /\ ~(op.o = "resolve" /\ op.ti # <<>>) THEN "torn"
  ELSE IF e.res.e = 0 /\ e.res.am # AccessTs(op) THEN "read-timestamp"
  ELSE ""
Init == i \in DOMAIN T0 /\ ph = 0
Bad(e, c) == LET o == Outcome(St(e.n), e.op) IN
  PrintT(<<"BAD", "txn-" \o e.op.o \o ":" \o c, i, "op", e.op, "before", St(e.n), "result", e.res, "after", St(e.p), "spec-result", o.r, "spec-after", o.s>>)
Next == /\ ph = 0 /\ ph' = 1 /\ i' = i
        /\ LET c == Check(T0[i]) IN IF c = "" THEN TRUE ELSE Bad(T0[i], c)
=============================================================================
