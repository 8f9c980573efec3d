------------------------------ MODULE TsoTrace ------------------------------
(* Conformance: recorded histories of the real timestamp oracle, followed event by event. *)
EXTENDS Tso, Json, IOUtils, TLC
VARIABLES i, ps, s
Raw == ndJsonDeserialize(IOEnv.TRACE)
N3 == 1..3
S0 == [nd |-> [n \in N3 |-> Node0], ep |-> [n \in N3 |-> 0], pd |-> [n \in N3 |-> <<>>], took |-> [n \in N3 |-> {}], req |-> {}, ap |-> [n \in N3 |-> 0],
       log |-> <<>>, given |-> {}, snap |-> <<>>, e |-> 0]
V(n) == [ph |-> n.ph, lo |-> n.lo, sv |-> n.sv]
Res(st, bad) == [st |-> st, bad |-> bad]
\* node n applies the entry (an adjustment by force starts a new epoch: what was handed out before does not count any more)
Applied(st, n, x) ==
  LET f == Forced(st.nd[n], x.x) IN
  [st EXCEPT !.nd[n] = ApplyTso(@, x.x, x.t), !.ap[n] = @ + 1, !.ep[n] = IF f THEN @ + 1 ELSE @,
             !.took[n] = IF Takes(st.nd[n], x.x) THEN @ \cup {x.x} ELSE @]
NewEpoch(st) == IF \E n \in N3 : st.ep[n] > st.e THEN [st EXCEPT !.e = @ + 1, !.given = {}] ELSE st
Step(st, v) ==
  CASE v.e = "prop" -> Res([st EXCEPT !.pd[v.n] = Append(@, v.x)], IF v.x.force /\ v.x \notin st.req THEN "forced" ELSE IF v.x.op = "other" THEN "entry" ELSE "")
    [] v.e = "req" -> Res([st EXCEPT !.req = @ \cup {v.x}], "")
    [] v.e = "lead" -> Res([st EXCEPT !.nd[v.n].lt = v.t], "")
    [] v.e = "commit" -> LET x == [x |-> Head(st.pd[v.n]), t |-> v.t]  u == NewEpoch(Applied([st EXCEPT !.pd[v.n] = Tail(@), !.log = Append(@, x)], v.n, x)) IN Res(u, IF V(u.nd[v.n]) # v.v THEN "apply" ELSE "")
    [] v.e = "deliver" -> LET u == NewEpoch(Applied(st, v.n, st.log[st.ap[v.n] + 1])) IN Res(u, IF V(u.nd[v.n]) # v.v THEN "apply" ELSE "")
    [] v.e = "stop" -> Res([st EXCEPT !.nd[v.n].lt = 0, !.pd[v.n] = <<>>], IF V(st.nd[v.n]) # v.v THEN "stop" ELSE "")
    [] v.e = "orphan" -> Res([st EXCEPT !.log = Append(@, [x |-> v.x, t |-> st.nd[v.n].lt])], "")
    [] v.e = "gen" ->
         LET n == st.nd[v.n]  g == [t |-> n.lt, ph |-> v.ph, lo |-> v.lo, hi |-> v.lo + v.c] IN
         IF v.r # "ok" THEN Res(st, IF v.must THEN "unavailable" ELSE "")
         ELSE IF v.c <= 0 \/ v.rc # v.c THEN Res(st, "count")
         ELSE IF st.ep[v.n] = st.e /\ ~Fresh(st.given, g) THEN Res(st, "unique")
         ELSE IF v.ph > n.sv THEN Res(st, "promise")
         ELSE IF ~CanGen(n, v.c) THEN Res(st, "unsynced")
         ELSE IF v.ph # n.ph \/ v.lo # n.lo THEN Res(st, "value")
         ELSE Res([st EXCEPT !.nd[v.n] = AfterGen(n, v.c), !.given = IF st.ep[v.n] = st.e THEN @ \cup {g} ELSE @], "")
    [] v.e = "ans" -> Res(st, IF v.r = "ok" /\ v.x \notin st.took[v.n] THEN "answer" ELSE "")
    [] v.e = "save" -> Res([st EXCEPT !.snap = Append(@, [sv |-> st.nd[v.n].sv, ep |-> st.ep[v.n], ap |-> st.ap[v.n]])], "")
    [] v.e = "restart" -> LET k == IF v.k = 0 THEN [sv |-> 0, ep |-> 0, ap |-> 0] ELSE st.snap[v.k]  u == [st EXCEPT !.nd[v.n] = [Node0 EXCEPT !.sv = k.sv], !.ep[v.n] = k.ep, !.ap[v.n] = k.ap, !.pd[v.n] = <<>>] IN Res(u, IF V(u.nd[v.n]) # v.v THEN "snapshot" ELSE "")
    [] v.e = "hang" -> Res(st, "hang")
    [] OTHER -> Res(st, "event")
Init == i \in DOMAIN Raw /\ ps = 0 /\ s = S0
Next == /\ ps < Len(Raw[i].h) /\ i' = i
        /\ LET v == Raw[i].h[ps + 1]  r == Step(s, v) IN
             IF r.bad = "" THEN ps' = ps + 1 /\ s' = r.st
             ELSE /\ PrintT(<<"BAD", "tso-" \o v.e \o ":" \o r.bad, i, ps + 1, v, "state", [s EXCEPT !.log = Len(@)], "before", [k \in {x \in ps-5..ps : x > 0} |-> Raw[i].h[k]]>>)
                  /\ ps' = Len(Raw[i].h) /\ s' = S0
=============================================================================
