------------------------------- MODULE RawGc -------------------------------
(* Conformance: collections of old versions by the real store: what is stored after each of its writes and at the end. *)
EXTENDS Raw, Json, IOUtils, TLC
VARIABLES i, ps
Raw0 == ndJsonDeserialize(IOEnv.TRACE)
States(e) == {Rng(e.mid[j]) : j \in DOMAIN e.mid} \cup {Rng(e.p)}
Bad(e) ==
  LET s == Rng(e.s) IN
  IF e.e # 0 THEN "refused"
  ELSE IF \E u \in States(e) : ~GcOnly(s, u, e.sp) THEN "touched"
  ELSE IF \E u \in States(e) : ~GcSafe(s, u, e.sp, e.now) THEN "lost"
  ELSE IF e.all /\ ~GcDone(Rng(e.p), e.sp, e.now) THEN "left"
  ELSE IF \E u \in States(e) : ~GcSafeStrict(s, u, e.sp, e.now) THEN "below-newer-version"
  ELSE ""
Init == i \in DOMAIN Raw0 /\ ps = 0
Next == /\ ps = 0 /\ i' = i /\ ps' = 1
        /\ LET e == Raw0[i] IN IF Bad(e) = "" THEN TRUE ELSE PrintT(<<"BAD", "raw-gc:" \o Bad(e), i, 1, e>>)
=============================================================================
