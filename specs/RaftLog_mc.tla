----------------------------- MODULE RaftLog_mc -----------------------------
(* The log of one region driven by raft, by a vector index and by crashes. Ghosts: must = what was appended, answered and not given up by
   everyone who may need it; need[c] = where client c last said it starts to need the log. *)
EXTENDS RaftLog
CONSTANTS MaxIdx, MaxTerm, Clients, MaxSteps
VARIABLES g, must, need, tm, n, gone
vars == <<g, must, need, tm, n, gone>>
Init == g = Fresh(Clients) /\ must = {} /\ need = Zero(Clients) /\ tm = 1 /\ n = 0 /\ gone = 0
Tick == n < MaxSteps /\ n' = n + 1
EntSet(x) == {x[j] : j \in 1..Len(x)}
Extend == Tick /\ \E t \in tm..MaxTerm, k \in 1..2 :
  /\ g.l + k <= MaxIdx
  /\ LET es == [j \in 1..k |-> <<g.l + j, t, 2, "d">>] IN g' = App(g, es) /\ must' = must \cup EntSet(es)
  /\ tm' = t /\ UNCHANGED <<need, gone>>
Allow == Tick /\ \E c \in 1..Clients, k \in 0..(MaxIdx + 1) :
  /\ g' = TruncP(g, c, k)
  /\ need' = IF k <= 0 THEN [need EXCEPT ![c] = 0] ELSE IF k > need[c] /\ k > g.f THEN [need EXCEPT ![c] = k] ELSE need
  /\ gone' = LMax(gone, Least(need'))
  /\ must' = {e \in must : e[1] >= gone'}
  /\ UNCHANGED tm
Cut == Tick /\ \E k \in (g.f - 1)..g.l : g' = TruncS(g, k) /\ must' = {e \in must : e[1] <= k} /\ UNCHANGED <<need, tm>> /\ gone' = (IF gone > k + 1 THEN k + 1 ELSE gone)
Install == Tick /\ \E k \in 1..MaxIdx : g' = Reset(g, k) /\ must' = {} /\ need' = Zero(Clients) /\ gone' = k /\ UNCHANGED tm
Stop == Tick /\ g' = Recover(g) /\ need' = Zero(Clients) /\ UNCHANGED <<must, tm, gone>>
Next == Extend \/ Allow \/ Cut \/ Install \/ Stop
\* answered entries stay until every client gave them up; nothing is invented; what stays is in order
Kept == must \subseteq EntSet(g.x)
Honest == \A e \in EntSet(g.x) : e \in must \/ e[1] < gone
Ordered == \A j \in 1..(Len(g.x) - 1) : g.x[j][1] < g.x[j + 1][1] /\ g.x[j][2] <= g.x[j + 1][2]
Spans == g.x # <<>> => g.x[1][1] >= g.f /\ g.x[Len(g.x)][1] = g.l
Empty == g.x = <<>> => g.f <= g.l + 1
=============================================================================
