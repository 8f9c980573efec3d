---- MODULE CodecTrace ----
(* Judges recorded encodings of the real code. *)
EXTENDS Codec, TLC, IOUtils, Json
VARIABLE i
Tr == ndJsonDeserialize(IOEnv.TRACE)
All(s, v) == \A j \in DOMAIN s : s[j] = v
Max8 == <<127, 255, 255, 255, 255, 255, 255, 255>>
PlainKey(e) == IF e.n = 0 THEN PartKey(e.c, e.p) ELSE IF e.n = 1 THEN IdKey(e.c, e.p, e.id) ELSE ScalarKey(e.c, e.p, e.id, e.s)
Why(e) == CASE
     e.o = "enc" -> IF ~All(e.e, EncBytes(e.k)) THEN "encode" ELSE IF ~e.ok \/ ~All(e.d, e.k) THEN "decode" ELSE ""
  [] e.o = "key" -> IF ~All(e.e, EncKey(e.k, e.t)) THEN "encode" ELSE IF ~e.ok \/ ~All(e.d, e.k) \/ ~All(e.ts, e.t) THEN "decode" ELSE IF ~All(e.tk, EncBytes(e.k)) THEN "cut" ELSE ""
  [] e.o = "dec" -> LET d == DecBytes(e.e) IN IF e.d.x THEN "throws" ELSE IF d = {} THEN IF e.d.ok THEN "taken" ELSE "" ELSE IF e.d.ok /\ {e.d.k} = d THEN "" ELSE "refused"
  [] e.o = "pair" -> IF e.el # Less(e.a, e.b) THEN "order" ELSE IF e.lt # (Less(e.a, e.b) \/ (e.a = e.b /\ Less(e.u, e.t))) THEN "versions" ELSE ""
  [] e.o = "val" -> IF ~All(e.p, Pack(e.f, e.t, e.v)) THEN "pack" ELSE IF ~All(e.u, IF e.f = 2 THEN <<>> ELSE e.v) \/ ~All(e.fl, e.f) \/ ~All(e.ts, IF e.f = 1 THEN e.t ELSE Pad(8)) THEN "unpack" ELSE IF e.k # EncKey(<<107>>, <<0, 0, 0, 0, 0, 0, 0, 5>>) \/ e.k2 # e.k THEN "key" ELSE ""
  [] e.o = "index" -> LET k == PlainKey(e) IN IF e.pl # k THEN "plain" ELSE IF e.en # EncBytes(k) \/ e.wt # EncKey(k, e.t) THEN "encode" ELSE IF ~All(e.ps, e.p) \/ ~All(e.is, IF e.n = 0 THEN Pad(8) ELSE e.id) \/ (e.n = 2 /\ ~All(e.ss, e.s)) THEN "decode" ELSE IF ~All(e.tk, EncBytes(k)) \/ ~All(e.tt, e.t) THEN "cut" ELSE IF ~e.va THEN "valid" ELSE ""
  [] e.o = "ids" -> IF ~e.lt THEN "order" ELSE IF e.u # e.a \/ e.v # (IF e.ep THEN Max8 ELSE e.b) THEN "ids" ELSE ""
  [] e.o = "next" -> IF All(e.n, Next1(e.k)) THEN "" ELSE "prefix"
  [] e.o = "range" -> IF e.i # Inter(e.x, e.y) THEN "intersect" ELSE IF e["in"] # (Leq(e.x[1], e.y[1]) /\ Leq(e.y[2], e.x[2])) THEN "contain" ELSE IF e.cf # (Less(e.x[1], e.y[2]) /\ Less(e.y[1], e.x[2])) THEN "conflict"
       ELSE IF e.iv = Less(e.x[1], e.x[2]) \/ e.ck # (e.x[1] # <<>> /\ e.x[2] # <<>> /\ Less(e.x[1], e.x[2])) THEN "check" ELSE IF e.e # <<EncBytes(e.x[1]), EncBytes(e.x[2]), EncBytes(e.x[1]), EncBytes(e.x[2])>> \/ e.d # e.x THEN "encode" ELSE ""
  [] e.o = "opt" -> IF e.t = <<IF e.ws THEN e.a ELSE Next1(e.a), IF e.we THEN Next1(e.b) ELSE e.b>> THEN "" ELSE "options"
  [] e.o = "long" -> IF e.a # e.v \/ e.b # Flip(e.v) \/ e.ra # e.v \/ ~All(e.rb, e.v) THEN "number" ELSE ""
  [] OTHER -> "unknown"
Init == i \in 1..Len(Tr)
Next == UNCHANGED i
Judge == LET w == Why(Tr[i]) IN w = "" \/ PrintT(<<"BAD", "codec-" \o Tr[i].o \o ":" \o w, i, 1, Tr[i]>>)
====
