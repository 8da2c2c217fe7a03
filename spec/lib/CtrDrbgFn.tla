------------------------------ MODULE CtrDrbgFn ------------------------------
(* SP 800-90A Rev. 1, CTR_DRBG, AES-256, no derivation function.
   Working state: record [key, v] (32 and 16 bytes). *)
EXTENDS AesFn

SeedLen == 48

(* V + 1 mod 2^128, big endian *)
IncV(v) ==
  IF v[16] # 255 THEN [v EXCEPT ![16] = @ + 1] ELSE
  LET k == CHOOSE k \in 0..16 : /\ \A i \in (k+1)..16 : v[i] = 255
                                /\ k > 0 => v[k] # 255
  IN  [i \in 1..16 |-> IF i > k THEN 0 ELSE IF i = k THEN v[i] + 1 ELSE v[i]]

(* n counter blocks under key, starting after v: <<output, last v>>; in halves when they are many *)
RECURSIVE CtrBlocks(_, _, _)
CtrBlocks(key, v, n) ==
  IF n > 64
  THEN LET a == TLCEval(CtrBlocks(key, v, n \div 2))
           b == TLCEval(CtrBlocks(key, a[2], n - n \div 2))
       IN << a[1] \o b[1], b[2] >>
  ELSE FoldLeft(LAMBDA acc, i : LET w == IncV(acc[2]) IN << acc[1] \o AesEnc(key, w), w >>,
           << <<>>, v >>, [i \in 1..n |-> i])

Update(st, data) ==
  LET t == XorSeq(CtrBlocks(st.key, st.v, 3)[1], data)
  IN  [key |-> Take(t, 32), v |-> Drop(t, 32)]

Seed(entropy, extra) == XorSeq(Fit(entropy, SeedLen), Fit(extra, SeedLen))

Instantiate(entropy, pers) == Update([key |-> Zeros(32), v |-> Zeros(16)], Seed(entropy, pers))

ReseedFn(st, entropy, add) == Update(st, Seed(entropy, add))

(* generate n bytes: <<output, new state>> *)
GenerateFn(st, n, add) ==
  LET ad  == Fit(add, SeedLen)
      st1 == IF add = <<>> THEN st ELSE Update(st, ad)
      blk == CtrBlocks(st1.key, st1.v, (n + 15) \div 16)
  IN  << Take(blk[1], n), Update([key |-> st1.key, v |-> blk[2]], ad) >>
=============================================================================
