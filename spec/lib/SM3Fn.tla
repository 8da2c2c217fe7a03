------------------------------- MODULE SM3Fn --------------------------------
(* SM3 (GB/T 32905-2016).  A 32-bit word is a pair <<hi, lo>> of 16-bit halves,
   because TLC's integers are 32-bit signed. *)
EXTENDS Bytes

H16 == 65536
BitOp16(Op(_, _, _), x, y, z) ==
  LET f[k \in 0..16] == IF k = 0 THEN 0
        ELSE f[k-1] + (2^(k-1)) * Op((x \div 2^(k-1)) % 2, (y \div 2^(k-1)) % 2, (z \div 2^(k-1)) % 2)
  IN  f[16]
BXor(a, b, c) == (a + b + c) % 2
BMaj(a, b, c) == IF a + b + c >= 2 THEN 1 ELSE 0
BCh(a, b, c)  == IF a = 1 THEN b ELSE c
W3(Op(_, _, _), x, y, z) == << BitOp16(Op, x[1], y[1], z[1]), BitOp16(Op, x[2], y[2], z[2]) >>
WXor(x, y, z) == W3(BXor, x, y, z)
W0 == <<0, 0>>
WAdd(x, y) == LET l == x[2] + y[2] IN << (x[1] + y[1] + (l \div H16)) % H16, l % H16 >>
RotSmall(x, k) ==    \* 0 <= k < 16
  << ((x[1] * 2^k) % H16) + (x[2] \div 2^(16-k)), ((x[2] * 2^k) % H16) + (x[1] \div 2^(16-k)) >>
Rot(x, n) == LET k == n % 32 IN IF k < 16 THEN RotSmall(x, k) ELSE RotSmall(<<x[2], x[1]>>, k - 16)
P0(x) == WXor(x, Rot(x, 9), Rot(x, 17))
P1(x) == WXor(x, Rot(x, 15), Rot(x, 23))
TJ(j) == IF j < 16 THEN <<31180, 17689>> ELSE <<31367, 40330>>   \* 79cc4519, 7a879d8a

IV == << 115,128,22,111, 73,20,178,185, 23,36,66,215, 218,138,6,0,
         169,111,48,188, 22,49,56,170, 227,141,238,77, 176,251,14,78 >>

WordAt(b, i) == << b[4*i+1]*256 + b[4*i+2], b[4*i+3]*256 + b[4*i+4] >>
WordBytes(w) == << w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256 >>

Expand(B) ==     \* W_0..W_67
  FoldLeft(LAMBDA W, j :
     Append(W, WXor(P1(WXor(W[j-16+1], W[j-9+1], Rot(W[j-3+1], 15))), Rot(W[j-13+1], 7), W[j-6+1])),
     [i \in 1..16 |-> WordAt(B, i-1)], [k \in 1..52 |-> k + 15])

(* compression: 32-byte chaining value, 64-byte block *)
SM3Compress(Vb, B) ==
  LET W == TLCEval(Expand(B))
      V == [i \in 1..8 |-> WordAt(Vb, i-1)]
      round(S, j) ==
        LET A == S[1]  E == S[5]
            SS1 == Rot(WAdd(WAdd(Rot(A, 12), E), Rot(TJ(j), j)), 7)
            SS2 == WXor(SS1, Rot(A, 12), W0)
            FF == IF j < 16 THEN WXor(A, S[2], S[3]) ELSE W3(BMaj, A, S[2], S[3])
            GG == IF j < 16 THEN WXor(E, S[6], S[7]) ELSE W3(BCh, E, S[6], S[7])
            TT1 == WAdd(WAdd(FF, S[4]), WAdd(SS2, WXor(W[j+1], W[j+5], W0)))
            TT2 == WAdd(WAdd(GG, S[8]), WAdd(SS1, W[j+1]))
        IN TLCEval(<< TT1, A, Rot(S[2], 9), S[3], P0(TT2), E, Rot(S[6], 19), S[7] >>)
      R == FoldLeft(round, V, [k \in 1..64 |-> k-1])
  IN  Concat([i \in 1..8 |-> WordBytes(WXor(R[i], V[i], W0))])

(* k-fold compression with the same block (long messages) *)
SM3Repeat(Vb, B, k) == FoldLeft(LAMBDA v, i : SM3Compress(v, B), Vb, [i \in 1..k |-> i])

SM3Blocks(Vb, data) ==
  FoldLeft(LAMBDA v, i : SM3Compress(v, SubSeq(data, 64*i + 1, 64*i + 64)), Vb,
           [i \in 1..(Len(data) \div 64) |-> i-1])

(* the 64-bit big-endian bit length of 64 q + r bytes, r < 64, q < 2^31 *)
BitLen64(q, r) ==
  LET x == q \div 128 IN
  << 0, 0, x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256 >>   \* bits 16..63, as far as q < 2^31 reaches
  \o << 2 * (q % 128) + r \div 32, (r % 32) * 8 >>

SM3Pad(tail, q) == tail \o <<128>> \o Zeros((119 - Len(tail)) % 64) \o BitLen64(q, Len(tail))

(* digest from the incremental state: chaining value after q blocks, tail < 64 bytes *)
SM3Final(V, tail, q) == SM3Blocks(V, SM3Pad(tail, q))
SM3(msg) == SM3Blocks(IV, msg \o <<128>> \o Zeros((119 - (Len(msg) % 64)) % 64)
                                   \o BitLen64(Len(msg) \div 64, Len(msg) % 64))
=============================================================================
