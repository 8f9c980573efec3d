---- MODULE Codec ----
(* How keys, values and ranges are written as bytes. A byte is 0..Top, a group has G bytes, a number has W bytes (the highest first,
   in two's complement). The real instance has Top = 255, G = 8, W = 8. *)
EXTENDS Naturals, Sequences
CONSTANTS G, Top, W
Pad(n) == [i \in 1..n |-> 0]
\* groups of G bytes, each followed by a mark that says how many bytes of it are padding
RECURSIVE EncBytes(_)
EncBytes(k) == IF Len(k) >= G THEN SubSeq(k, 1, G) \o <<Top>> \o EncBytes(SubSeq(k, G + 1, Len(k))) ELSE k \o Pad(G - Len(k)) \o <<Top - (G - Len(k))>>
\* what is encoded by e; the empty set if e is no encoding
RECURSIVE DecBytes(_)
DecBytes(e) == IF Len(e) < G + 1 THEN {}
  ELSE LET m == Top - e[G + 1] rest == SubSeq(e, G + 2, Len(e)) IN
       IF m = 0 THEN { SubSeq(e, 1, G) \o k : k \in DecBytes(rest) }
       ELSE IF m <= G /\ rest = <<>> /\ \A i \in (G - m + 1)..G : e[i] = 0 THEN { SubSeq(e, 1, G - m) } ELSE {}
Flip(b) == [b EXCEPT ![1] = (@ + (Top + 1) \div 2) % (Top + 1)]   \* numbers in order, the negative ones first
Neg(b) == [i \in DOMAIN b |-> Top - b[i]]                          \* numbers >= 0 in reverse order
EncKey(k, t) == EncBytes(k) \o Neg(t)                              \* a version of a key: the newest first
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Leq(a, b) == a = b \/ Less(a, b)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* the least key above all keys with prefix k; if there is none (only bytes Top) the code answers k itself
RECURSIVE Strip(_)
Strip(k) == IF k # <<>> /\ k[Len(k)] = Top THEN Strip(SubSeq(k, 1, Len(k) - 1)) ELSE k
Next1(k) == LET s == Strip(k) IN IF s = <<>> THEN k ELSE [s EXCEPT ![Len(s)] = @ + 1]
\* keys of an index: a prefix, a partition (> 0), an id (>= 0), and what a scalar index adds
PartKey(c, p) == <<c>> \o p
IdKey(c, p, i) == PartKey(c, p) \o Flip(i)
ScalarKey(c, p, i, s) == IdKey(c, p, i) \o s
\* values: 0 put, 1 put with a time to live, 2 delete
Pack(f, t, v) == CASE f = 0 -> v \o <<0>> [] f = 1 -> v \o t \o <<1>> [] OTHER -> <<2>>
Inter(x, y) == <<IF Leq(x[1], y[1]) THEN y[1] ELSE x[1], IF Leq(x[2], y[2]) THEN x[2] ELSE y[2]>>
In(k, r) == Leq(r[1], k) /\ Less(k, r[2])
====
