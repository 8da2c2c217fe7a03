------------------------------- MODULE SM3Impl -------------------------------
(* The Merkle-Damgard buffering of hash/sm3 (digest.Write, digest.Sum, Reset): chaining
   value, a block-sized buffer, a running length.  The compression is symbolic: the
   chaining value is the sequence of blocks compressed so far.  A block has Block cells;
   the last LenCells of the final block hold the message length. *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Block, LenCells, Tokens, MaxLen, MaxWrite
VARIABLES h, b, n, reply, m
vars == << h, b, n, reply, m >>
LenMark(k) == [i \in 1..LenCells |-> 1000 + k]

Place(x, at, d) == [i \in 1..Block |-> IF i > at /\ i <= at + Len(d) THEN d[i - at] ELSE x[i]]
Blocks(s) == [k \in 1..(Len(s) \div Block) |-> SubSeq(s, (k-1)*Block + 1, k*Block)]

(* the padded message *)
PadOf(msg) ==
  LET u == (Len(msg) + 1) % Block
      z == (Block + Block - LenCells - u) % Block
  IN msg \o << 100 >> \o [i \in 1..z |-> 0] \o LenMark(Len(msg))
AbsOut(cfg, msg, from, k) == << Blocks(PadOf(msg)) >>

Init == h = << >> /\ b = [i \in 1..Block |-> 0] /\ n = 0 /\ reply = [call |-> "new"] /\ m = << >>

(* the effect of Write on <<h, b, n>> *)
Feed(s, d) ==
  LET idx == s[3] % Block IN
  IF idx + Len(d) < Block THEN << s[1], Place(s[2], idx, d), s[3] + Len(d) >>
  ELSE LET c  == Block - idx
           b1 == Place(s[2], idx, SubSeq(d, 1, c))
           rs == SubSeq(d, c + 1, Len(d))
           k  == Len(rs) \div Block
       IN << Append(s[1], b1) \o Blocks(SubSeq(rs, 1, k*Block)),
             Place(b1, 0, SubSeq(rs, k*Block + 1, Len(rs))), s[3] + Len(d) >>
St == << h, b, n >>
Write(d) == LET s == Feed(St, d) IN
  /\ h' = s[1] /\ b' = s[2] /\ n' = s[3] /\ m' = m \o d
  /\ reply' = [call |-> "write", n |-> Len(d), err |-> FALSE]

Digest(s) ==
  LET idx == s[3] % Block
      z   == [i \in 1..Block |-> IF i > idx + 1 THEN 0 ELSE IF i = idx + 1 THEN 100 ELSE s[2][i]]
      h1  == IF idx >= Block - LenCells THEN Append(s[1], z) ELSE s[1]
      z1  == IF idx >= Block - LenCells THEN [i \in 1..Block |-> 0] ELSE z
      z2  == Place(z1, Block - LenCells, LenMark(s[3]))
  IN << Append(h1, z2) >>
Sum(in) == /\ UNCHANGED << h, b, n, m >>
           /\ reply' = [call |-> "sum", out |-> Digest(Feed(St, in))]
Reset == /\ h' = << >> /\ n' = 0 /\ m' = << >> /\ UNCHANGED b
         /\ reply' = [call |-> "reset"]

Data == UNION { [1..k -> Tokens] : k \in 0..MaxWrite }
Next == \/ \E d \in Data : Len(m) + Len(d) <= MaxLen /\ Write(d)
        \/ \E in \in {<< >>, << 9 >>} : Sum(in)
        \/ Reset
Spec == Init /\ [][Next]_vars

TheCfg == [alg |-> "SM3", N |-> << >>, S |-> << >>, xof |-> FALSE, size |-> 1, block |-> Block]
AbsNothing(cfg) == << >>
AbsAbsorb(cfg, x, d) == x \o d
AbsCat(x, y) == x \o y
AbsObj == [o \in {"o"} |-> [cfg |-> TheCfg, m |-> m, phase |-> "absorbing", off |-> 0]]
H == INSTANCE HashObj WITH obj <- AbsObj, reply <- reply, Nothing <- AbsNothing,
       Absorb <- AbsAbsorb, Out <- AbsOut, Cat <- AbsCat, LenOf <- Len
AbsNext == \/ \E d \in Data : H!Write("o", d)
           \/ H!Sum("o", << >>)
           \/ \E in \in {<< >>, << 9 >>} : H!SumHashesIn("o", in)
           \/ H!Reset("o")
Refines == [][AbsNext]_vars
LenOK == n = Len(m)
=============================================================================
