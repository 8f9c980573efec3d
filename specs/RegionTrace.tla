----------------------------- MODULE RegionTrace -----------------------------
(* Conformance: the entries the regions' leaders proposed, in the order they were proposed, and where every store ended which
   applied them: the store of the leaders, stores which followed in another order, stores which crashed and started again. *)
EXTENDS Region, Json, IOUtils, TLC
VARIABLES i, ps, s
Raw0 == ndJsonDeserialize(IOEnv.TRACE)
Res(st, bad) == [st |-> st, bad |-> bad]
Start(in) == [g |-> [r \in {in[j][1] : j \in 1..Len(in)} |-> LET j == CHOOSE j \in 1..Len(in) : in[j][1] = r IN Normal(in[j][2], in[j][3], 1)], d |-> <<>>]
Data(x) == {<<x[j][1], x[j][2], x[j][3], x[j][4]>> : j \in 1..Len(x)}
DataOf(d) == {<<k[1], k[2], k[3], d[k]>> : k \in DOMAIN d}
MaxTs(st, r) == SetMax({k[3] : k \in {k \in DOMAIN st.d : k[2] >= st.g[r].lo /\ k[2] < st.g[r].hi}})
Fin(st, v) ==
  IF {v.g[j].id : j \in 1..Len(v.g)} # DOMAIN st.g THEN "regions"
  ELSE IF \E j \in 1..Len(v.g) : v.g[j].st # st.g[v.g[j].id].state THEN "state"
  ELSE IF \E j \in 1..Len(v.g) : v.g[j].st # "TOMBSTONE" /\ v.g[j].ver # st.g[v.g[j].id].ver THEN "epoch"
  ELSE IF \E j \in 1..Len(v.g) : v.g[j].lo # st.g[v.g[j].id].lo \/ v.g[j].hi # st.g[v.g[j].id].hi THEN "range"
  ELSE IF Data(v.d) # DataOf(st.d) THEN "data"
  ELSE IF \E j \in 1..Len(v.g) : v.g[j].st = "NORMAL" /\ v.g[j].dis THEN "blocked"
  ELSE IF v.ts /\ \E j \in 1..Len(v.g) : v.g[j].st = "NORMAL" /\ v.g[j].mts >= 0 /\ v.g[j].mts < MaxTs(st, v.g[j].id) THEN "maxts"
  ELSE ""
Step(st, v) ==
  IF v.e = "ent" THEN LET n == Apply(st, v) IN
    Res(n, IF Counts(st, v) /\ \E j \in 1..Len(v.cs) : ~Later(st, v.cs[j]) THEN "order"
           ELSE "")
  ELSE IF v.e = "stuck" THEN Res(st, v.who \o "-stuck")
  ELSE Res(st, IF Fin(st, v) = "" THEN "" ELSE v.who \o "-" \o Fin(st, v))
Report(b, j) == IF b = "" THEN TRUE ELSE PrintT(<<"BAD", "region-" \o b, j, ps, Raw0[ps].h[j], "state", s>>)
Init == i = 0 /\ ps = 1 /\ s = IF Raw0 = <<>> THEN <<>> ELSE Start(Raw0[1].init)
Next ==
  /\ ps <= Len(Raw0)
  /\ LET h == Raw0[ps].h IN
     IF i < Len(h) THEN LET r == Step(s, h[i + 1]) IN Report(r.bad, i + 1) /\ s' = r.st /\ i' = i + 1 /\ UNCHANGED ps
     ELSE ps' = ps + 1 /\ i' = 0 /\ s' = IF ps < Len(Raw0) THEN Start(Raw0[ps + 1].init) ELSE <<>>
=============================================================================
