------------------------------ MODULE SpongeImpl ------------------------------
(* The buffered sponge as hash/sha3 implements it (state.Write, finalize_sha3,
   state.Read, state.Sum, Reset): a permutation state, a rate-sized buffer and one
   index that means "bytes waiting" while absorbing and "bytes not yet handed out"
   while squeezing.  The permutation is symbolic: its state is the sequence of blocks
   absorbed so far and the number of further permutations since the padding block.
   Checked to refine HashObj, whose Out is defined from the padded message. *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

CONSTANTS Rate, Tokens, MaxLen, MaxOut, MaxWrite, XOF

VARIABLES a,        \* permutation state <<blocks, extra permutations>>
          buf,      \* Rate cells
          idx, sq,
          reply,
          m         \* ghost: the message (refinement mapping only)
vars == << a, buf, idx, sq, reply, m >>

Pad == 100  End == 101  Both == 102      \* domain suffix, last bit, both in one byte
Blank == [i \in 1..Rate |-> 0]

(* ---- what the bytes mean: blocks of the padded message ---- *)
PadOf(msg) == LET u == Len(msg) % Rate IN
  msg \o (IF u = Rate - 1 THEN << Both >>
          ELSE << Pad >> \o [i \in 1..(Rate - u - 2) |-> 0] \o << End >>)
BlocksOf(s) == [k \in 1..(Len(s) \div Rate) |-> SubSeq(s, (k-1)*Rate + 1, k*Rate)]
OutByte(msg, i) == << BlocksOf(PadOf(msg)), i \div Rate, i % Rate >>
AbsOut(cfg, msg, from, n) == [i \in 1..n |-> OutByte(msg, from + i - 1)]

(* ---- the implementation ---- *)
Permute(st) == IF st[2] = 0 /\ ~ sq THEN st ELSE << st[1], st[2] + 1 >>
AbsorbBlk(st, blk) == << Append(st[1], blk), 0 >>
Copy(st) == [i \in 1..Rate |-> << st[1], st[2], i - 1 >>]      \* copyOut

Place(b, at, d) == [i \in 1..Rate |-> IF i > at /\ i <= at + Len(d) THEN d[i - at] ELSE b[i]]

RECURSIVE AbsorbFull(_, _)
AbsorbFull(st, d) == IF Len(d) < Rate THEN << st, d >>
                     ELSE AbsorbFull(AbsorbBlk(st, SubSeq(d, 1, Rate)), SubSeq(d, Rate + 1, Len(d)))

Init == /\ a = << << >>, 0 >> /\ buf = Blank /\ idx = 0 /\ sq = FALSE
        /\ reply = [call |-> "new"] /\ m = << >>

Write(d) ==
  IF sq THEN /\ reply' = [call |-> "write", n |-> 0, err |-> TRUE]
             /\ UNCHANGED << a, buf, idx, sq, m >>
  ELSE /\ reply' = [call |-> "write", n |-> Len(d), err |-> FALSE]
       /\ m' = m \o d /\ UNCHANGED sq
       /\ IF idx + Len(d) < Rate
          THEN /\ buf' = Place(buf, idx, d) /\ idx' = idx + Len(d) /\ UNCHANGED a
          ELSE LET fb   == Rate - idx
                   b1   == Place(buf, idx, SubSeq(d, 1, fb))
                   r    == AbsorbFull(AbsorbBlk(a, b1), SubSeq(d, fb + 1, Len(d)))
               IN /\ a' = r[1] /\ buf' = Place(b1, 0, r[2]) /\ idx' = Len(r[2])

(* finalize: zero fill, suffix at idx, last bit at Rate; returns <<a, buf>> *)
Finalize ==
  LET z  == [i \in 1..Rate |-> IF i > idx + 1 THEN 0 ELSE buf[i]]
      z1 == [z EXCEPT ![idx + 1] = Pad]
      z2 == [z1 EXCEPT ![Rate] = IF @ = Pad THEN Both ELSE End]
      st == AbsorbBlk(a, z2)
  IN << st, Copy(st) >>

RECURSIVE Pull(_, _, _)
Pull(st, n, acc) ==       \* full blocks straight to the caller
  IF n < Rate THEN << st, acc >>
  ELSE LET s2 == << st[1], st[2] + 1 >> IN Pull(s2, n - Rate, acc \o Copy(s2))

(* Read on <<a, buf, idx, sq>>: <<a', buf', idx', out>> *)
ReadFrom(n) ==
  LET f  == IF sq THEN << a, buf >> ELSE Finalize
      ix == IF sq THEN idx ELSE Rate
      l  == IF ix < n THEN ix ELSE n
      o1 == SubSeq(f[2], Rate - ix + 1, Rate - ix + l)
  IN IF l = n THEN << f[1], f[2], ix - l, o1 >>
     ELSE LET p  == Pull(f[1], n - l, o1)
              rest == (n - l) % Rate
              s3 == << p[1][1], p[1][2] + 1 >>
              b3 == Copy(s3)
          IN << s3, b3, Rate - rest, p[2] \o SubSeq(b3, 1, rest) >>

Read(n) ==
  LET r == ReadFrom(n) IN
  /\ a' = r[1] /\ buf' = r[2] /\ idx' = r[3] /\ sq' = TRUE
  /\ reply' = [call |-> "read", n |-> n, err |-> FALSE, out |-> r[4]]
  /\ UNCHANGED m

Size == IF XOF THEN 0 ELSE Rate + 1      \* a digest longer than the rate too
Sum(in) ==        \* on a copy
  /\ reply' = [call |-> "sum", out |-> in \o ReadFrom(Size)[4]]
  /\ UNCHANGED << a, buf, idx, sq, m >>

Reset == /\ a' = << << >>, 0 >> /\ buf' = Blank /\ idx' = 0 /\ sq' = FALSE
         /\ reply' = [call |-> "reset"] /\ m' = << >>

Data == UNION { [1..n -> Tokens] : n \in 0..MaxWrite }
Taken == IF sq THEN a[2] * Rate + (Rate - idx) ELSE 0     \* bytes handed out so far
Next == \/ \E d \in Data : Len(m) + Len(d) <= MaxLen /\ Write(d)
        \/ XOF /\ \E n \in 0..(2*Rate + 1) : Taken + n <= MaxOut /\ Read(n)
        \/ ~ XOF /\ \E in \in {<< >>, << 9 >>} : Sum(in)
        \/ Reset
Spec == Init /\ [][Next]_vars

(* ---- refinement of HashObj, with one object "o" ---- *)
TheCfg == [alg |-> "x", N |-> << >>, S |-> << >>, xof |-> XOF, size |-> Size, block |-> Rate]
AbsNothing(cfg) == << >>
AbsAbsorb(cfg, x, d) == x \o d
AbsCat(x, y) == x \o y
AbsObj == [o \in {"o"} |-> [cfg |-> TheCfg, m |-> m,
                            phase |-> IF sq THEN "squeezing" ELSE "absorbing", off |-> Taken]]
H == INSTANCE HashObj WITH obj <- AbsObj, reply <- reply, Nothing <- AbsNothing,
       Absorb <- AbsAbsorb, Out <- AbsOut, Cat <- AbsCat, LenOf <- Len
AbsNext == \/ \E d \in Data : H!Write("o", d)
           \/ \E n \in 0..(2*Rate + 1) : H!Read("o", n)
           \/ \E in \in {<< >>, << 9 >>} : H!Sum("o", in)
           \/ H!Reset("o")
Refines == [][AbsNext]_vars

IdxOK == idx \in 0..Rate /\ (~ sq => idx < Rate)
=============================================================================
