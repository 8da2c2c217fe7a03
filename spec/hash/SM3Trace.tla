------------------------------- MODULE SM3Trace -------------------------------
(* Validation of traces of hash/sm3 against HashObj.  A message is represented by the
   incremental state of the standard's iteration: chaining value, remaining bytes (< 64),
   number of blocks - so that messages of several gigabytes can be followed.
   h.wrep writes k copies of one 64-byte block. *)
EXTENDS HashObj, SM3Fn, TraceKit

TrNothing(cfg) == << IV, << >>, 0 >>
TrAbsorb(cfg, m, d) ==
  LET t == m[2] \o d
      k == Len(t) \div 64
  IN  << SM3Blocks(m[1], SubSeq(t, 1, 64*k)), SubSeq(t, 64*k + 1, Len(t)), m[3] + k >>
TrOut(cfg, m, from, n) == SM3Final(m[1], m[2], m[3])
TrCat(a, b) == a \o b
(* k > 0 copies of the 64-byte block b *)
Rep(m, b, k) ==
  LET u == Len(m[2])
      head == m[2] \o Take(b, 64 - u)
      mid == Drop(b, 64 - u) \o Take(b, 64 - u)
  IN  << SM3Repeat(SM3Compress(m[1], head), mid, k - 1), Drop(b, 64 - u), m[3] + k >>

Cfg == [alg |-> "SM3", N |-> << >>, S |-> << >>, xof |-> FALSE, size |-> 32, block |-> 64]
tvars == << obj, reply, l >>

WriteRep(o, b, k) ==
  /\ obj' = [obj EXCEPT ![o].m = Rep(@, b, k)]
  /\ reply' = [call |-> "write"]

Step(e) ==
  CASE e.op = "begin" -> obj' = << >> /\ reply' = [call |-> "begin"]
    [] e.op = "h.new" -> New(e.o, Cfg)
    [] e.op = "h.write" -> Write(e.o, e.d)
         /\ Sees("contract", "n", e.n, reply'.n) /\ Sees("contract", "err", e.err, reply'.err)
    [] e.op = "h.wrep" -> WriteRep(e.o, e.d, e.k)
         /\ Sees("contract", "short writes", e.bad, 0) /\ Sees("contract", "err", e.err, FALSE)
    [] e.op = "h.sum" ->
         LET appends == TrCat(e.in, TrOut(Cfg, obj[e.o].m, 0, 32)) IN
         IF e.in # << >> /\ e.out # appends /\ "sm3-sum-in" \in KnownTags
         THEN /\ SumHashesIn(e.o, e.in) /\ Chk("sum", e.out, reply'.out)
              /\ Known("sm3-sum-in")
         ELSE Sum(e.o, e.in) /\ Chk("sum", e.out, reply'.out)
    [] e.op = "h.reset" -> Reset(e.o)
    [] e.op = "h.size" -> Sizes(e.o) /\ Sees("contract", "size", e.size, reply'.size)
                                     /\ Sees("contract", "block size", e.bs, reply'.bs)

Init == HInit /\ l = 1
Next == Consume /\ NoPanic /\ Step(Ev)
Spec == Init /\ [][Next]_tvars
=============================================================================
