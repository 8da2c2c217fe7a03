------------------------------- MODULE BigTrace -------------------------------
(* As HashTrace, for long messages, customisations and outputs: a message is what has been
   absorbed, and k copies of a string whose length is the rate are an operation of their own.
   N and S are given as a string and how many copies of another follow it. *)
EXTENDS HashObj, Keccak, TraceKit

Custom(alg) == alg \in {"cSHAKE128", "cSHAKE256"}
NonEmpty(c) == c.N # << >> \/ c.S # << >> \/ c.Nk > 0 \/ c.Sk > 0
(* left_encode(bit length) || unit^k || rest *)
Enc(r, m, s, unit, k) ==
  LET h == SpAdd(r, m, LeftEncodeBits(Len(s) + k * r)) IN
  SpAdd(r, IF k = 0 THEN h ELSE SpRepeat(r, h, unit, k), s)
TrNothing(c) ==
  IF Custom(c.alg) /\ NonEmpty(c)
  THEN SpFill(c.block, Enc(c.block, Enc(c.block, SpAdd(c.block, SpEmpty, LeftEncode(c.block)), c.N, c.unit, c.Nk), c.S, c.unit, c.Sk))
  ELSE SpEmpty
TrAbsorb(c, m, d) == SpAdd(c.block, m, d)
Sfx(c) == IF ~ c.xof THEN 6 ELSE IF Custom(c.alg) /\ NonEmpty(c) THEN 4 ELSE 31
TrOut(c, m, from, n) == SpOutAt(c.block, Sfx(c), m, from, n)
TrCat(a, b) == a \o b

CfgOf(e) == [alg |-> e.alg, N |-> e.N, S |-> e.S, unit |-> e.unit, Nk |-> e.Nk, Sk |-> e.Sk,
             xof |-> DigestSize(e.alg) = 0, size |-> DigestSize(e.alg), block |-> Rate(e.alg)]
tvars == << obj, reply, l >>

Step(e) ==
  CASE e.op = "begin" -> obj' = << >> /\ reply' = [call |-> "begin"]
    [] e.op = "h.newrep" -> New(e.o, CfgOf(e))
    [] e.op = "h.write" -> Write(e.o, e.d)
         /\ Sees("contract", "n", e.n, reply'.n) /\ Sees("contract", "err", e.err, reply'.err)
    [] e.op = "h.wrep" ->
         /\ obj' = [obj EXCEPT ![e.o].m = SpRepeat(obj[e.o].cfg.block, @, e.d, e.k)] /\ reply' = [call |-> "write"]
         /\ Sees("contract", "short writes", e.bad, 0) /\ Sees("contract", "err", e.err, FALSE)
    [] e.op = "h.sum" -> Sum(e.o, e.in) /\ Chk("sum", e.out, reply'.out)
    [] e.op = "h.read" -> Read(e.o, e.n) /\ Chk("read", e.out, reply'.out)
         /\ Sees("contract", "n", e.rn, reply'.n) /\ Sees("contract", "err", e.err, reply'.err)
    \* a large Read of which only the beginning and the end were recorded
    [] e.op = "h.skim" ->
         LET c == obj[e.o].cfg  m == obj[e.o].m  f == obj[e.o].off IN
         /\ obj' = [obj EXCEPT ![e.o].phase = "squeezing", ![e.o].off = @ + e.n] /\ reply' = [call |-> "read"]
         /\ Chk("head", e.head, TrOut(c, m, f, Len(e.head)))
         /\ Chk("tail", e.tail, TrOut(c, m, f + e.n - Len(e.tail), Len(e.tail)))
         /\ Sees("contract", "n", e.rn, e.n) /\ Sees("contract", "err", e.err, FALSE)
    [] e.op = "h.clone" -> Clone(e.o, e.to)
    [] e.op = "h.reset" -> Reset(e.o)

Init == HInit /\ l = 1
Next == Consume /\ NoPanic /\ Step(Ev)
Spec == Init /\ [][Next]_tvars
=============================================================================
