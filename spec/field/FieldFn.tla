------------------------------- MODULE FieldFn -------------------------------
(* What the field routines of SIDH have to deliver.  A field F is a record: p the prime,
   p2 = 2p, r = R mod p where R = 2^(64 w) is the Montgomery radix, pr = p R, e34 = (p-3)/4,
   lim = R (numbers of w words), lim2 = R^2.  Numbers are exact; each relation leaves the
   representative open that the routine may choose, within its range. *)
EXTENDS BigNum

MkField(p, radix) ==
  [p |-> p, p2 |-> BnAdd(p, p), r |-> BnMod(radix, p), pr |-> BnMul(p, radix),
   e34 |-> BnHalf(BnHalf(BnSub(p, BnInt(3)))), ri |-> FpInv(p, BnMod(radix, p)),
   lim |-> radix, lim2 |-> BnMul(radix, radix)]

In2p(F, z) == BnLess(z, F.p2)
Cong(F, z, x) == FpRed(F.p, z) = FpRed(F.p, x)
Red(F, x) == FpRed(F.p, x)

(* GF(p): operands and results in [0, 2p) *)
RAdd(F, z, x, y) == In2p(F, z) /\ Red(F, z) = FpAdd(F.p, Red(F, x), Red(F, y))
RSub(F, z, x, y) == In2p(F, z) /\ Red(F, z) = FpSub(F.p, Red(F, x), Red(F, y))
RMod(F, z, x) == z = Red(F, x)
RMont(F, z, x, y) == In2p(F, z) /\ FpMul(F.p, z, F.r) = FpMul(F.p, x, y)
ToNum(F, x) == FpMul(F.p, x, F.ri)                  \* out of the Montgomery domain
RPow34(F, z, x) == In2p(F, z) /\ ToNum(F, z) = FpPow(F.p, ToNum(F, x), F.e34)
(* double-width values *)
XMulR(F, z, x, y) == z = BnMul(x, y)
XAddR(F, z, x, y) == z = BnAdd(x, y)
XSubR(F, z, x, y) == BnLess(z, F.pr) /\ Red(F, z) = FpSub(F.p, Red(F, x), Red(F, y))
RRdc(F, z, x) == In2p(F, z) /\ FpMul(F.p, z, F.r) = Red(F, x)
(* GF(p^2); an element is << re, im >> *)
Q2(F, z) == In2p(F, z[1]) /\ In2p(F, z[2])
QRed(F, x) == << Red(F, x[1]), Red(F, x[2]) >>
QScale(F, z) == << FpMul(F.p, z[1], F.r), FpMul(F.p, z[2], F.r) >>
QAddR(F, z, x, y) == RAdd(F, z[1], x[1], y[1]) /\ RAdd(F, z[2], x[2], y[2])
QSubR(F, z, x, y) == RSub(F, z[1], x[1], y[1]) /\ RSub(F, z[2], x[2], y[2])
QMulR(F, z, x, y) == Q2(F, z) /\ QScale(F, z) = F2Mul(F.p, QRed(F, x), QRed(F, y))
QSqrR(F, z, x) == QMulR(F, z, x, x)
QZero(F, x) == Red(F, x[1]) = BnInt(0) /\ Red(F, x[2]) = BnInt(0)
QInvR(F, z, x) == ~ QZero(F, x) =>
                  /\ Q2(F, z)
                  /\ F2Mul(F.p, QRed(F, z), QRed(F, x)) = << FpMul(F.p, F.r, F.r), BnInt(0) >>
QToMR(F, z, x) == Q2(F, z) /\ \A i \in 1..2 : Red(F, z[i]) = FpMul(F.p, x[i], F.r)
QFromMR(F, z, x) == \A i \in 1..2 : z[i] = ToNum(F, x[i])

(* the field of CSIDH: everything fully reduced *)
CAddR(F, z, x, y) == z = FpAdd(F.p, x, y)
CSubR(F, z, x, y) == z = FpSub(F.p, x, y)
CMulR(F, z, x, y) == z = FpMul(F.p, FpMul(F.p, x, y), F.ri)
CPowR(F, z, x, e) == z = FpMul(F.p, FpPow(F.p, ToNum(F, x), e), F.r)
(* words: numbers below lim; m below the word size *)
WSub(F, z, x, y) == z = IF BnLess(x, y) THEN BnSub(BnAdd(x, F.lim), y) ELSE BnSub(x, y)
WMul(F, z, x, m) == z = BnMod(BnMul(x, m), F.lim)
WMulFull(z, x, m) == z = BnMul(x, m)
CNonRes(F, x) == FpLegendre(F.p, ToNum(F, x)) = 2      \* x # 0
=============================================================================
