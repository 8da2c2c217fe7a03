-------------------------------- MODULE Bytes --------------------------------
(* Byte strings are sequences over 0..255.  Every operator is defined here in
   plain TLA+; the ones listed in java/nv/Ov.java are additionally evaluated by
   a Java override, and LibSelfTest.tla checks (overrides on vs. off) that both
   give the same values. *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

Zeros(n) == [i \in 1..n |-> 0]

(* bit b of a byte *)
Bit(x, b) == (x \div (2^b)) % 2

XorByte(x, y) ==
  LET f[k \in 0..8] == IF k = 0 THEN 0
                       ELSE f[k-1] + (IF Bit(x,k-1) # Bit(y,k-1) THEN 2^(k-1) ELSE 0)
  IN  f[8]

(* xor of two equally long byte strings *)
XorSeq(a, b) == [i \in 1..Len(a) |-> XorByte(a[i], b[i])]

Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n+1, Len(s))

(* s truncated or zero padded to n bytes *)
Fit(s, n) == IF Len(s) >= n THEN Take(s, n) ELSE s \o Zeros(n - Len(s))

(* all bytes equal to zero *)
IsZeros(s) == \A i \in 1..Len(s) : s[i] = 0

(* concatenation of a sequence of byte strings *)
Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
=============================================================================
