------------------------------ MODULE HashTrace ------------------------------
(* Validation of traces of hash/sha3 against HashObj with the functions of FIPS 202 and
   SP 800-185.  One event is consumed per step by the HashObj action of the same name;
   the reply the action prescribes is compared with the logged one. *)
EXTENDS HashObj, Keccak, TraceKit

TrNothing(cfg) == << >>
TrAbsorb(cfg, m, d) == m \o d
TrOut(cfg, m, from, n) == Drop(HashOut(cfg.alg, cfg.N, cfg.S, m, from + n), from)
TrCat(a, b) == a \o b

CfgOf(e) == [alg |-> e.alg, N |-> e.N, S |-> e.S, xof |-> DigestSize(e.alg) = 0,
             size |-> DigestSize(e.alg), block |-> Rate(e.alg)]

tvars == << obj, reply, l >>

Step(e) ==
  CASE e.op = "begin" -> obj' = << >> /\ reply' = [call |-> "begin"]
    [] e.op = "h.new" -> New(e.o, CfgOf(e))
    [] e.op = "h.write" -> Write(e.o, e.d)
         /\ Sees("contract", "n", e.n, reply'.n) /\ Sees("contract", "err", e.err, reply'.err)
    [] e.op = "h.sum" -> Sum(e.o, e.in) /\ Chk("sum", e.out, reply'.out)
    [] e.op = "h.read" -> Read(e.o, e.n) /\ Chk("read", e.out, reply'.out)
         /\ Sees("contract", "n", e.rn, reply'.n) /\ Sees("contract", "err", e.err, reply'.err)
    [] e.op = "h.clone" -> Clone(e.o, e.to)
    [] e.op = "h.reset" -> Reset(e.o)
    [] e.op = "h.size" -> Sizes(e.o) /\ Sees("contract", "size", e.size, reply'.size)
                                     /\ Sees("contract", "block size", e.bs, reply'.bs)
    [] e.op = "h.shakesum" -> UNCHANGED << obj, reply >>
         /\ Chk("shakesum", e.out, HashOut(e.alg, << >>, << >>, e.d, e.n))

Init == HInit /\ l = 1
Next == Consume /\ NoPanic /\ Step(Ev)
Spec == Init /\ [][Next]_tvars
=============================================================================
