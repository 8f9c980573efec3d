------------------------------ MODULE TxnProto ------------------------------
(* Conformance: whole histories of protocol clients on the real service. What Txn_mc promises has to hold in every recorded state.
   A line with [ev] is a history: a sequence of [p |-> state after the step, rd |-> <<key, ts, value>>s read, ack |-> start ts of a
   transaction its client was told about, ks |-> its keys]. *)
EXTENDS Txn, Json, IOUtils
VARIABLES i, ph
Raw == ndJsonDeserialize(IOEnv.TRACE)
IsSt(x) == "st" \in DOMAIN x
S0 == SelectSeq(Raw, IsSt)
T0 == SelectSeq(Raw, LAMBDA x : ~IsSt(x))
Load(st) == [l |-> SetOf(st.l), w |-> SetOf(st.w), d |-> SetOf(st.d)]
St(n) == Load(S0[n].st)
OneLock(s) == \A x, y \in s.l : x.k = y.k => x = y
Single(s) == \A x, y \in s.w : (x.k = y.k /\ x.s = y.s) => x = y
HasValue(s) == \A x \in s.w : (x.op = "P" /\ x.v = 0) => DataOf(s, x.k, x.s) # 0
Atomic(s) == \A x, y \in s.w : (x.s = y.s /\ x.op # "R" /\ y.op # "R") => x.c = y.c
NoMix(s) == \A x, y \in s.w : (x.s = y.s /\ x.op # "R") => y.op # "R"
NoLostUpdate(s, pess) == \A x, y \in s.w : (x.k = y.k /\ x # y /\ x.op # "R" /\ y.op # "R" /\ x.c <= y.c) => (x.c <= y.s \/ y.s \in pess)
Durable(s, t, ks) == \A k \in SetOf(ks) : Committed(s, k, t).c # 0 \/ (LockAt(s, k).t = t /\ LockAt(s, k).ty # "L")
Has(e, f) == f \in DOMAIN e
Check(h) ==
  LET pess == {h.kinds[j][1] : j \in {k \in DOMAIN h.kinds : h.kinds[k][2] = 3}}
      n == Len(h.ev)
      ss == {h.ev[j].p : j \in 1..n}
      Each(I(_)) == \A m \in ss : I(St(m))
  IN IF ~Each(OneLock) THEN "two-locks"
     ELSE IF ~Each(Single) THEN "two-records"
     ELSE IF ~Each(HasValue) THEN "value-missing"
     ELSE IF ~Each(Atomic) THEN "two-commit-timestamps"
     ELSE IF ~Each(NoMix) THEN "committed-and-rolled-back"
     ELSE IF ~Each(LAMBDA s : NoLostUpdate(s, pess)) THEN "lost-update"
     ELSE IF \E j \in 1..n : Has(h.ev[j], "ack") /\ \E m \in {h.ev[k].p : k \in j..n} : ~Durable(St(m), h.ev[j].ack, h.ev[j].ks) THEN "acknowledged-commit-lost"
     ELSE IF \E j \in 1..n : Has(h.ev[j], "rd") /\ \E m \in {h.ev[k].p : k \in j..n} : \E q \in SetOf(h.ev[j].rd) : ReadAt(St(m), q[1], q[2]) # q[3] THEN "read-changed"
     ELSE ""
Init == i \in DOMAIN T0 /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ i' = i
        /\ LET c == Check(T0[i]) IN IF c = "" THEN TRUE ELSE PrintT(<<"BAD", "protocol:" \o c, i, "kinds", T0[i].kinds, "ev", T0[i].ev, "log", T0[i].log>>)
=============================================================================
