------------------------------ MODULE LatchSvc ------------------------------
(* Conformance: concurrent commands on a region's latches through the service layer, events in the order they happened.
   begin: the command asks; grant: its acquire call returned; rel: it starts releasing; end: release returned;
   stuck: no thread can run any more. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, p, hold
T == ndJsonDeserialize(IOEnv.TRACE)
SetOf(x) == {x[j] : j \in DOMAIN x}
Init == i \in DOMAIN T /\ p = 1 /\ hold = {}
E == T[i].ev[p]
Ok == CASE E.e = "grant" -> \A h \in hold : h[1] # E.c /\ SetOf(h[2]) \cap SetOf(E.k) = {}
        [] E.e = "rel" -> \E h \in hold : h[1] = E.c
        [] E.e = "stuck" -> FALSE
        [] OTHER -> TRUE
Next == /\ p <= Len(T[i].ev)
        /\ IF Ok THEN TRUE ELSE PrintT(<<"BAD", "latch-" \o (IF E.e = "stuck" THEN "stuck" ELSE "two-holders"), i, p, E, hold>>)
        /\ Ok
        /\ i' = i /\ p' = p + 1
        /\ hold' = CASE E.e = "grant" -> hold \cup {<<E.c, E.k>>}
                     [] E.e = "rel" -> {h \in hold : h[1] # E.c}
                     [] OTHER -> hold
=============================================================================
