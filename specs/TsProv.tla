------------------------------- MODULE TsProv -------------------------------
(* The provider of timestamps of a store: it fetches batches of timestamps from the coordinator into a
   list, hands out the timestamps of the oldest batch first and drops those which are too small for the
   caller, at or below the smallest valid timestamp of the store, or which have become old. *)
EXTENDS Integers, Sequences, FiniteSets
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
MaxT(a, b) == IF Less(a, b) THEN b ELSE a
Old == 3000
In(t, b) == t[1] = b.p /\ t[2] >= b.l /\ t[2] < b.l + b.n
\* may call c be answered with timestamp t, given the batches fetched so far and the timestamps handed out before
Bad(t, c, batches, given) ==
  IF \A j \in DOMAIN batches : ~In(t, batches[j]) THEN "unknown"
  ELSE IF t \in given THEN "twice"
  ELSE IF ~Less(c.a, t) THEN "not-after"
  ELSE IF ~Less(c.mv, t) THEN "not-valid"
  ELSE IF \A j \in DOMAIN batches : In(t, batches[j]) => batches[j].now + Old < c.now THEN "old"
  ELSE ""
=============================================================================
