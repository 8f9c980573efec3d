------------------------------- MODULE Latch -------------------------------
(* Key latches of a region: each latch slot operation is one atomic step (the code holds the slot mutex for it).
   A command owns a growing prefix of its (hash-ordered) keys and queues, first come first served, at the first key it
   cannot have. Releasing pops the command from each owned queue and afterwards wakes every new queue head. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Clients, Keys
VARIABLE s
ZeroClient == [ph |-> "idle", ks |-> <<>>, i |-> 1, own |-> 0, wk |-> 0, wl |-> <<>>]
Empty == [q |-> [k \in Keys |-> <<>>], c |-> [c \in Clients |-> ZeroClient]]
\* ordered key lists
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ordered(S \ {m})
Begin(t, c, ks) == [t EXCEPT !.c[c] = [ZeroClient EXCEPT !.ph = "acq", !.ks = ks]]
\* one slot operation of an acquiring command
AcqStep(t, c) ==
  LET r == t.c[c]  k == r.ks[r.i] IN
  IF t.q[k] = <<>> THEN [t EXCEPT !.q[k] = <<c>>, !.c[c].own = @ + 1, !.c[c].i = @ + 1]
  ELSE IF Head(t.q[k]) = c THEN [t EXCEPT !.c[c].own = @ + 1, !.c[c].i = @ + 1]
  ELSE [t EXCEPT !.q[k] = Append(@, c), !.c[c].ph = "wait"]
AcqDone(t, c) == [t EXCEPT !.c[c].ph = "hold"]
Resume(t, c) == [t EXCEPT !.c[c].ph = "acq", !.c[c].wk = @ - 1, !.c[c].i = t.c[c].own + 1]
RelBegin(t, c) == [t EXCEPT !.c[c].ph = "rel", !.c[c].i = 1]
RelStep(t, c) ==
  LET r == t.c[c]  k == r.ks[r.i]  rest == SelectSeq(t.q[k], LAMBDA x : x # c) IN
  [t EXCEPT !.q[k] = rest, !.c[c].i = @ + 1, !.c[c].wl = IF rest = <<>> THEN @ ELSE Append(@, Head(rest))]
RelDone(t, c) ==
  LET w == t.c[c].wl IN
  [t EXCEPT !.c = [d \in Clients |-> IF d = c THEN ZeroClient
     ELSE [t.c[d] EXCEPT !.wk = @ + Cardinality({j \in DOMAIN w : w[j] = d})]]]
Init == s = Empty
Next == \E c \in Clients :
  \/ s.c[c].ph = "idle" /\ \E S \in (SUBSET Keys) \ {{}} : s' = Begin(s, c, Ordered(S))
  \/ s.c[c].ph = "acq" /\ s.c[c].i <= Len(s.c[c].ks) /\ s' = AcqStep(s, c)
  \/ s.c[c].ph = "acq" /\ s.c[c].i > Len(s.c[c].ks) /\ s' = AcqDone(s, c)
  \/ s.c[c].ph = "wait" /\ s.c[c].wk > 0 /\ s' = Resume(s, c)
  \/ s.c[c].ph = "hold" /\ s' = RelBegin(s, c)
  \/ s.c[c].ph = "rel" /\ s.c[c].i <= Len(s.c[c].ks) /\ s' = RelStep(s, c)
  \/ s.c[c].ph = "rel" /\ s.c[c].i > Len(s.c[c].ks) /\ s' = RelDone(s, c)
Step(c) == Next /\ s'.c[c] # s.c[c] /\ s.c[c].ph # "idle"
Spec == Init /\ [][Next]_s /\ \A c \in Clients : WF_s(Step(c))
Range(f) == {f[x] : x \in DOMAIN f}
MutualExclusion == \A c, d \in Clients : c # d /\ s.c[c].ph = "hold" /\ s.c[d].ph = "hold" =>
                      Range(s.c[c].ks) \cap Range(s.c[d].ks) = {}
HoldersAreFirst == \A c \in Clients : s.c[c].ph = "hold" => \A k \in Range(s.c[c].ks) : s.q[k] # <<>> /\ Head(s.q[k]) = c
NoLostWakeup == \A k \in Keys : \A c \in Clients :
   (s.q[k] # <<>> /\ Head(s.q[k]) = c /\ s.c[c].ph = "wait" /\ s.c[c].ks[s.c[c].i] = k)
     => s.c[c].wk > 0 \/ \E d \in Clients : c \in Range(s.c[d].wl)
NoDuplicates == \A k \in Keys : \A i, j \in DOMAIN s.q[k] : s.q[k][i] = s.q[k][j] => i = j
Granted == \A c \in Clients : s.c[c].ph = "wait" ~> s.c[c].ph = "hold"
=============================================================================
