---- MODULE Codec_mc ----
(* The encodings keep the order, can be told apart and split the keys where they are meant to: all pairs of keys of a small instance. *)
EXTENDS Codec, FiniteSets
CONSTANTS MaxLen, Kind
VARIABLES a, b, c
vars == <<a, b, c>>
Byte == 0..Top
Keys == UNION { [1..n -> Byte] : n \in 0..MaxLen }
Num == [1..W -> Byte]
Half == (Top + 1) \div 2
Pos == { x \in Num : x[1] < Half }                  \* numbers >= 0
SLess(x, y) == Less(Flip(x), Flip(y))                \* the order of signed numbers, defined through values below
Val[x \in UNION { [1..n -> Byte] : n \in 0..W }] == IF x = <<>> THEN 0 ELSE Val[SubSeq(x, 1, Len(x) - 1)] * (Top + 1) + x[Len(x)]
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE (Top + 1) * Pow(n - 1)
SVal(x) == IF x[1] < Half THEN Val[x] + Pow(W) ELSE Val[x]   \* shifted by the number of numbers, negative ones below
Init == \/ Kind = "keys" /\ a \in Keys /\ b \in Keys /\ c \in {<<>>, <<0>>, <<Top>>}
        \/ Kind = "versions" /\ a \in { <<k, t>> : k \in { x \in Keys : Len(x) < MaxLen }, t \in Pos } /\ b \in { <<k, t>> : k \in { x \in Keys : Len(x) < MaxLen }, t \in Pos } /\ c = <<>>
        \/ Kind = "index" /\ a \in { <<p, i>> : p \in Pos, i \in Pos } /\ b \in { <<p, i>> : p \in Pos, i \in Pos } /\ c \in {<<>>, <<0>>, <<Top, 1>>}
        \/ Kind = "any" /\ a \in UNION { [1..n -> Byte] : n \in 0..(2 * (G + 1)) } /\ b = <<>> /\ c = <<>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
KeysOk == Kind = "keys" =>
  /\ (Less(a, b) <=> Less(EncBytes(a), EncBytes(b)))
  /\ DecBytes(EncBytes(a)) = {a}
  /\ a # b => ~IsPrefix(EncBytes(a), EncBytes(b))
  /\ (Strip(a) # <<>> => (IsPrefix(a, b) <=> In(b, <<a, Next1(a)>>)))                      \* a range covers a prefix
  /\ \A x \in {a \o c, Next1(b)} : In(x, Inter(<<a, b>>, <<c, Next1(b)>>)) <=> (In(x, <<a, b>>) /\ In(x, <<c, Next1(b)>>))
VersionsOk == Kind = "versions" =>
  /\ (Less(EncKey(a[1], a[2]), EncKey(b[1], b[2])) <=> (Less(a[1], b[1]) \/ (a[1] = b[1] /\ Val[a[2]] > Val[b[2]])))
  /\ (Leq(EncBytes(b[1]), EncKey(a[1], a[2])) <=> Leq(b[1], a[1]))                           \* bounds without a timestamp hold all versions
IndexOk == Kind = "index" =>
  LET x == ScalarKey(1, a[1], a[2], c) y == ScalarKey(1, b[1], b[2], <<>>) IN
  /\ (Less(IdKey(1, a[1], a[2]), IdKey(1, b[1], b[2])) <=> (Val[a[1]] < Val[b[1]] \/ (a[1] = b[1] /\ Val[a[2]] < Val[b[2]])))
  /\ (a # b => (Less(x, y) <=> Less(IdKey(1, a[1], a[2]), y)))
  /\ (a[1] # b[1] => (Less(PartKey(1, b[1]), x) <=> Val[b[1]] < Val[a[1]]))
  /\ (SVal(a[1]) < SVal(Neg(a[2])) <=> SLess(a[1], Neg(a[2])))
AnyOk == Kind = "any" => \A k \in DecBytes(a) : EncBytes(k) = a
Ok == KeysOk /\ VersionsOk /\ IndexOk /\ AnyOk
====
