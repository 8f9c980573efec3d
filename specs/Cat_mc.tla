------------------------------ MODULE Cat_mc ------------------------------
(* Exhaustive model of the catalogue: any requests in any order over a few ids and names; the catalogue stays sound, refused requests change nothing, names can be used again. *)
EXTENDS Cat
CONSTANTS Tids, Sids, Ids0, Names, MaxSteps
VARIABLES s, n
I0 == [tn |-> {[id |-> 0, nm |-> "root"]}, sc |-> {[id |-> 2, tn |-> 0, nm |-> "DINGO"]}, tb |-> {}, ix |-> {}, nx |-> 0, ns |-> 0]
NmI == Names
Xs == {<<>>} \cup {<<[nm |-> a, id |-> j]>> : a \in NmI, j \in Ids0} \cup {<<[nm |-> a, id |-> j], [nm |-> b, id |-> k]>> : a \in NmI, b \in NmI, j \in Ids0, k \in Ids0}
Ls == {<<[t |-> t, id |-> j, sc |-> c]>> : t \in BOOLEAN, j \in Ids0, c \in Sids \cup {2}} \cup {<<[t |-> TRUE, id |-> j, sc |-> c], [t |-> u, id |-> k, sc |-> c]>> : u \in BOOLEAN, j \in Ids0, k \in Ids0, c \in Sids \cup {2}}
Reqs == {[o |-> "tcreate", id |-> t, nm |-> "t"] : t \in Tids} \cup {[o |-> "tdrop", id |-> t] : t \in Tids}
  \cup {[o |-> "screate", tn |-> t, nm |-> a, id |-> c] : t \in Tids \cup {0}, a \in Names, c \in {c \in Sids : c \notin Ids(s.sc)}}
  \cup {[o |-> "sdrop", tn |-> 0, id |-> c] : c \in Sids}
  \cup {[o |-> o, sc |-> c, nm |-> a, id |-> j] : o \in {"bcreate", "icreate"}, c \in Sids \cup {2}, a \in Names, j \in Ids0}
  \cup {[o |-> o, sc |-> c, id |-> j] : o \in {"bdrop", "idrop"}, c \in Sids \cup {2}, j \in Ids0}
  \cup {[o |-> "btcreate", sc |-> c, nm |-> a, id |-> j, xs |-> q] : c \in Sids \cup {2}, a \in Names, j \in Ids0, q \in Xs}
  \cup {[o |-> "btdrop", l |-> l] : l \in Ls}
  \cup {[o |-> "xadd", tb |-> j, nm |-> a, id |-> k] : j \in Ids0, k \in Ids0, a \in Names}
  \cup {[o |-> "xdrop", tb |-> j, id |-> k] : j \in Ids0, k \in Ids0}
Init == s = I0 /\ n = 0
Next == n < MaxSteps /\ n' = n + 1 /\ \E v \in Reqs : LET r == Ask(s, v) IN r.ok /\ s' = r.st
Sound == Inv(s)
\* a refused request leaves all as it was; whatever exists can be dropped when nothing hangs on it; a dropped name is free again
Refused == \A v \in Reqs : ~Ask(s, v).ok => Ask(s, v).st = s
Dropped == \A v \in Reqs : (v.o \in {"bdrop", "idrop", "btdrop", "xdrop"} /\ Ask(s, v).ok) =>
  LET t == Ask(s, v).st IN t.tb \subseteq s.tb /\ t.ix \subseteq s.ix /\ t.sc = s.sc
     /\ (\A x \in s.tb \ t.tb : CanTable(t, x.sc, x.nm, x.id)) /\ (\A x \in s.ix \ t.ix : CanIndex(t, x.sc, x.nm, x.id))
Removable == (\A x \in s.tb : Ask(s, IF x.k THEN [o |-> "btdrop", l |-> <<[t |-> TRUE, id |-> x.id, sc |-> x.sc]>>] ELSE [o |-> "bdrop", sc |-> x.sc, id |-> x.id]).ok)
  /\ (\A x \in s.sc : x.id \in Sids /\ SchemaEmpty(s, x.id) => Ask(s, [o |-> "sdrop", tn |-> 0, id |-> x.id]).ok)
=============================================================================
