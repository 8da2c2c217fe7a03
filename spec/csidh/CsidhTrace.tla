------------------------------- MODULE CsidhTrace -------------------------------
(* Validation of traces of CSIDH keys against CsidhObj with the functions of CsidhFn.  Also
   kept: the secrets derived, by the set of the two private keys. *)
EXTENDS CsidhObj, CsidhFn, TraceKit, Integers
VARIABLES src,     \* public key object -> the private key its value was generated from
          agreed   \* {private keys} -> secret
tvars == << keys, reply, src, agreed, l >>
TrAct(q, p) == TLCEval(CShared(p, q))
TrValid(q) == TLCEval(CValid(q))
TrLen(b) == Len(b)
TrCut(b, i, j) == SubSeq(b, i + 1, j)
TrUnknown == << >>
TrGen(b) == LET g == TLCEval(CGenKey(b)) IN
            IF g[2] = 0 THEN << TrUnknown, "short" >> ELSE << g[1], IF 64 * g[2] <= Len(b) THEN "whole" ELSE "part" >>
Without(f, o) == [x \in DOMAIN f \ {o} |-> f[x]]
With(f, k, v) == (k :> v) @@ f

DeriveStep(e) ==
  /\ Derive(e.prv, e.pub) /\ UNCHANGED src
  /\ Chk("accepted", e.ok, reply'.ok)
  /\ IF ~ reply'.ok THEN Chk("untouched", e.touched, FALSE) /\ UNCHANGED agreed
     ELSE /\ Chk("secret", e.out, reply'.out)
          /\ IF e.pub \in DOMAIN src
             THEN LET pair == { keys[e.prv].val, src[e.pub] } IN
                  /\ IF pair \in DOMAIN agreed THEN Chk("agreement", e.out, agreed[pair]) ELSE TRUE
                  /\ agreed' = With(agreed, pair, e.out)
             ELSE UNCHANGED agreed
CStep(e) ==
  CASE e.op = "s.prv" -> NewKey(e.o, "prv") /\ UNCHANGED << src, agreed >>
    [] e.op = "s.pub" -> NewKey(e.o, "pub") /\ src' = Without(src, e.o) /\ UNCHANGED agreed
    [] e.op = "s.imp" -> /\ Import(e.o, e.data) /\ Chk("ok", e.ok, reply'.ok) /\ UNCHANGED agreed
                         /\ src' = IF reply'.ok THEN Without(src, e.o) ELSE src
    [] e.op = "s.move" -> /\ Chk("exported", e.data, keys[e.from].val)
                          /\ Import(e.o, e.data) /\ Chk("ok", e.ok, reply'.ok) /\ UNCHANGED agreed
                          /\ src' = IF e.from \in DOMAIN src THEN With(src, e.o, src[e.from]) ELSE Without(src, e.o)
    [] e.op = "s.exp" -> /\ Export(e.o, e.n) /\ Chk("ok", e.ok, reply'.ok) /\ UNCHANGED << src, agreed >>
                         /\ IF reply'.ok THEN Chk("out", e.out, reply'.out) ELSE TRUE
    [] e.op = "s.gen" -> Generate(e.o, e.rng) /\ reply'.err = e.err /\ UNCHANGED << src, agreed >>
    [] e.op = "s.pubgen" -> PublicKey(e.prv, e.pub) /\ src' = With(src, e.pub, keys[e.prv].val) /\ UNCHANGED agreed
    [] e.op = "s.val" -> /\ Validate(e.pub) /\ Chk("valid", e.ok, reply'.ok)
                         /\ IF e.ok THEN Chk("proof", CProof(keys[e.pub].val, e.points), TRUE) ELSE TRUE
                         /\ UNCHANGED << src, agreed >>
    [] e.op = "s.derive" -> DeriveStep(e)
Step(e) ==
  CASE e.op = "begin" -> keys' = << >> /\ src' = << >> /\ agreed' = << >> /\ reply' = [call |-> "begin"]
    [] OTHER -> CStep(e)
Init == CInit /\ src = << >> /\ agreed = << >> /\ l = 1
Next == Consume /\ NoPanic /\ Step(Ev)
Spec == Init /\ [][Next]_tvars
=============================================================================
