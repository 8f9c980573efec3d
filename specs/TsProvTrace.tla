---------------------------- MODULE TsProvTrace ----------------------------
(* Conformance: recorded histories of threads which take timestamps from the real provider, under schedules of
   their operations on shared memory, while a coordinator answers or fails. *)
EXTENDS TsProv, Json, IOUtils, TLC
VARIABLES i, ps, s
Raw0 == ndJsonDeserialize(IOEnv.TRACE)
S0 == [given |-> {}, bs |-> <<>>, mv |-> <<0, 0>>, cs |-> <<>>, fails |-> 0]
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Res(st, bad) == [st |-> st, bad |-> bad]
Step(st, v) ==
  CASE v.e = "batch" -> Res([st EXCEPT !.bs = Append(@, [p |-> v.p, l |-> v.l, n |-> v.n, now |-> v.now])], "")
    [] v.e = "fail" -> Res([st EXCEPT !.fails = @ + 1], "")
    [] v.e = "min" -> Res([st EXCEPT !.mv = MaxT(@, v.t)], "")
    [] v.e = "call" -> Res([st EXCEPT !.cs = Put(@, v.th, [a |-> v.a, mv |-> st.mv, now |-> v.now, f |-> st.fails])], "")
    [] OTHER -> LET c == st.cs[v.th] IN
         IF v.t = <<0, 0>> THEN Res(st, IF st.fails = c.f THEN "gave-up" ELSE "")
         ELSE Res([st EXCEPT !.given = @ \cup {v.t}], Bad(v.t, c, st.bs, st.given))
Init == i \in DOMAIN Raw0 /\ ps = 0 /\ s = S0
Next == /\ ps < Len(Raw0[i].h) /\ i' = i
        /\ LET v == Raw0[i].h[ps + 1]  r == Step(s, v) IN
             IF r.bad = "" THEN ps' = ps + 1 /\ s' = r.st
             ELSE /\ PrintT(<<"BAD", "ts-provider:" \o r.bad, i, ps + 1, v, "state", s>>)
                  /\ ps' = Len(Raw0[i].h) /\ s' = S0
=============================================================================
