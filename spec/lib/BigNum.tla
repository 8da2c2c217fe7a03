------------------------------- MODULE BigNum -------------------------------
(* Natural numbers of any size and arithmetic modulo a prime.  A number is an
   abstract value: here a normalised little-endian sequence of base-256 digits;
   the Java override uses its own representation.  Specifications only go
   through these operators. *)
EXTENDS Bytes

Norm(a) == LET n == CHOOSE n \in 0..Len(a) : /\ \A i \in (n+1)..Len(a) : a[i] = 0
                                             /\ n > 0 => a[n] # 0
           IN SubSeq(a, 1, n)
Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

(* little-endian bytes <-> numbers; BnToBytes needs a < 256^n *)
BnFromBytes(b) == Norm(b)
BnToBytes(a, n) == [i \in 1..n |-> Dig(a, i)]
BnVec(b, n) == [i \in 1..(Len(b) \div n) |-> BnFromBytes(SubSeq(b, (i-1)*n + 1, i*n))]   \* n bytes each
BnFits(a, n) == Len(a) <= n              \* a < 256^n
BnInt(n) == Norm(<< n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>)
BnLess(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in (i+1)..Len(a) : a[j] = b[j]
BnAdd(a, b) ==
  LET n == Max2(Len(a), Len(b)) + 1
      st(acc, i) == LET s == Dig(a, i) + Dig(b, i) + acc[2] IN << Append(acc[1], s % 256), s \div 256 >>
  IN Norm(FoldLeft(st, << <<>>, 0 >>, [i \in 1..n |-> i])[1])
BnSub(a, b) ==       \* a >= b
  LET st(acc, i) == LET s == 256 + Dig(a, i) - Dig(b, i) - acc[2]
                    IN << Append(acc[1], s % 256), IF s < 256 THEN 1 ELSE 0 >>
  IN Norm(FoldLeft(st, << <<>>, 0 >>, [i \in 1..Len(a) |-> i])[1])
BnMul(a, b) ==
  LET col(k) == FoldLeft(LAMBDA s, i : s + Dig(a, i) * Dig(b, k + 1 - i), 0, [i \in 1..k |-> i])
      st(acc, k) == LET s == col(k) + acc[2] IN << Append(acc[1], s % 256), s \div 256 >>
  IN Norm(FoldLeft(st, << <<>>, 0 >>, [k \in 1..(Len(a) + Len(b)) |-> k])[1])
BnBit(a, i) == Bit(Dig(a, i \div 8 + 1), i % 8)
BnBitLen(a) == IF a = <<>> THEN 0
               ELSE 8*(Len(a)-1) + 1 + CHOOSE k \in 0..7 : Bit(a[Len(a)], k) = 1 /\ a[Len(a)] < 2^(k+1)
(* schoolbook binary division *)
BnMod(a, m) ==
  LET n == BnBitLen(a)
      st(r, i) == LET d == BnAdd(r, r)
                      e == IF BnBit(a, n - i) = 1 THEN BnAdd(d, BnInt(1)) ELSE d
                  IN IF BnLess(e, m) THEN e ELSE BnSub(e, m)
  IN FoldLeft(st, <<>>, [i \in 1..n |-> i])
BnPow2(k) == Norm([i \in 1..(k \div 8 + 1) |-> IF i = k \div 8 + 1 THEN 2^(k % 8) ELSE 0])

BnHalf(a) == Norm([i \in 1..Len(a) |-> a[i] \div 2 + 128 * (Dig(a, i+1) % 2)])

(* ---- GF(p); arguments reduced ---- *)
FpRed(p, a) == BnMod(a, p)
FpAdd(p, a, b) == BnMod(BnAdd(a, b), p)
FpSub(p, a, b) == BnMod(BnSub(BnAdd(a, p), b), p)
FpMul(p, a, b) == BnMod(BnMul(a, b), p)
FpPow(p, a, e) ==
  LET n == BnBitLen(e)
      st(r, i) == LET s == FpMul(p, r, r) IN IF BnBit(e, n - i) = 1 THEN FpMul(p, s, a) ELSE s
  IN FoldLeft(st, BnMod(BnInt(1), p), [i \in 1..n |-> i])
FpInv(p, a) == FpPow(p, a, BnSub(p, BnInt(2)))      \* 0 for a = 0
FpNeg(p, a) == FpSub(p, BnInt(0), a)
(* 1 if a is a non-zero square, 0 if a = 0, 2 (i.e. -1) otherwise *)
FpLegendre(p, a) ==
  LET r == FpPow(p, a, BnHalf(BnSub(p, BnInt(1))))
  IN IF r = BnInt(0) THEN 0 ELSE IF r = BnInt(1) THEN 1 ELSE 2

(* ---- GF(p^2) = GF(p)(i), i^2 = -1, p = 3 mod 4; an element is <<re, im>> ---- *)
F2(re, im) == << re, im >>
F2Add(p, x, y) == << FpAdd(p, x[1], y[1]), FpAdd(p, x[2], y[2]) >>
F2Sub(p, x, y) == << FpSub(p, x[1], y[1]), FpSub(p, x[2], y[2]) >>
F2Mul(p, x, y) == << FpSub(p, FpMul(p, x[1], y[1]), FpMul(p, x[2], y[2])),
                     FpAdd(p, FpMul(p, x[1], y[2]), FpMul(p, x[2], y[1])) >>
F2Inv(p, x) == LET d == FpInv(p, FpAdd(p, FpMul(p, x[1], x[1]), FpMul(p, x[2], x[2])))
               IN << FpMul(p, x[1], d), FpMul(p, FpNeg(p, x[2]), d) >>
F2Zero == << BnInt(0), BnInt(0) >>
F2Int(n) == << BnInt(n), BnInt(0) >>
F2IsZero(x) == x = F2Zero
=============================================================================
