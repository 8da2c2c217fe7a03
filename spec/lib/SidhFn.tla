------------------------------- MODULE SidhFn -------------------------------
(* SIDH and SIKE as functions on byte strings, from the SIKE specification
   (round 2): Montgomery curves E_a: y^2 = x^3 + a x^2 + x over GF(p^2),
   starting curve a = 6, x-only arithmetic with affine formulas for isogenies
   (sec. 1.3.4-1.3.6), a divide-and-conquer walk of the isogeny chain. *)
EXTENDS BigNum, Keccak, SidhParams

Pow3(n) == FoldLeft(LAMBDA a, i : BnMul(a, BnInt(3)), BnInt(1), [i \in 1..n |-> i])

Fields == {"p434", "p503", "p751"}
E2(f)  == CASE f = "p434" -> 216 [] f = "p503" -> 250 [] f = "p751" -> 372
E3(f)  == CASE f = "p434" -> 137 [] f = "p503" -> 159 [] f = "p751" -> 239
P434v == TLCEval(BnSub(BnMul(BnPow2(216), Pow3(137)), BnInt(1)))
P503v == TLCEval(BnSub(BnMul(BnPow2(250), Pow3(159)), BnInt(1)))
P751v == TLCEval(BnSub(BnMul(BnPow2(372), Pow3(239)), BnInt(1)))
Prime(f) == CASE f = "p434" -> P434v [] f = "p503" -> P503v [] f = "p751" -> P751v
FpBytes(f) == CASE f = "p434" -> 55 [] f = "p503" -> 63 [] f = "p751" -> 94
(* bit lengths of private keys: A in [0, 2^e2), B in [0, 2^floor(log2 3^e3)) *)
KeyBits(f, side) == IF side = "A" THEN E2(f)
                    ELSE CASE f = "p434" -> 217 [] f = "p503" -> 252 [] f = "p751" -> 378
MsgLen(f) == CASE f = "p434" -> 16 [] f = "p503" -> 24 [] f = "p751" -> 32
(* bytes of a serialised private key in this library (p434/A uses one more than needed) *)
KeyBytes(f, side) == CASE f = "p434" -> 28 [] f = "p503" -> 32
                       [] f = "p751" -> IF side = "A" THEN 47 ELSE 48
SsSize(f) == 2 * FpBytes(f)
PkSize(f) == 6 * FpBytes(f)
CtSize(f) == MsgLen(f) + PkSize(f)

F2Of(q) == << BnFromBytes(q[1]), BnFromBytes(q[2]) >>
Base(f, side) ==      \* <<x(P), x(Q), x(P-Q)>>
  CASE f = "p434" /\ side = "A" -> << F2Of(P434_AP), F2Of(P434_AQ), F2Of(P434_AR) >>
    [] f = "p434" /\ side = "B" -> << F2Of(P434_BP), F2Of(P434_BQ), F2Of(P434_BR) >>
    [] f = "p503" /\ side = "A" -> << F2Of(P503_AP), F2Of(P503_AQ), F2Of(P503_AR) >>
    [] f = "p503" /\ side = "B" -> << F2Of(P503_BP), F2Of(P503_BQ), F2Of(P503_BR) >>
    [] f = "p751" /\ side = "A" -> << F2Of(P751_AP), F2Of(P751_AQ), F2Of(P751_AR) >>
    [] f = "p751" /\ side = "B" -> << F2Of(P751_BP), F2Of(P751_BQ), F2Of(P751_BR) >>
Other(side) == IF side = "A" THEN "B" ELSE "A"

(* ---- x-only arithmetic; a point is <<X, Z>> ---- *)
Sq(p, x) == F2Mul(p, x, x)
(* x([2]P) on E_a, a24 = (a+2)/4 *)
XDbl(p, a24, P) ==
  LET s == TLCEval(Sq(p, F2Add(p, P[1], P[2])))
      d == TLCEval(Sq(p, F2Sub(p, P[1], P[2])))
      c == TLCEval(F2Sub(p, s, d))
  IN << F2Mul(p, s, d), F2Mul(p, c, F2Add(p, d, F2Mul(p, a24, c))) >>
(* x(P+Q) from x(P), x(Q), x(P-Q) *)
XAdd(p, P, Q, D) ==
  LET u == TLCEval(F2Mul(p, F2Sub(p, P[1], P[2]), F2Add(p, Q[1], Q[2])))
      v == TLCEval(F2Mul(p, F2Add(p, P[1], P[2]), F2Sub(p, Q[1], Q[2])))
  IN << F2Mul(p, D[2], Sq(p, F2Add(p, u, v))), F2Mul(p, D[1], Sq(p, F2Sub(p, u, v))) >>
XDblK(p, a24, P, k) == FoldLeft(LAMBDA R, i : TLCEval(XDbl(p, a24, R)), P, [i \in 1..k |-> i])
XTplK(p, a24, P, k) == FoldLeft(LAMBDA R, i : TLCEval(XAdd(p, XDbl(p, a24, R), R, R)), P, [i \in 1..k |-> i])
A24(p, a) == F2Mul(p, F2Add(p, a, F2Int(2)), F2Inv(p, F2Int(4)))
Affine1(p, P) == F2Mul(p, P[1], F2Inv(p, P[2]))

(* x(P + [m]Q); m given by its bits 0..n-1 (right-to-left three point ladder) *)
Ladder3(p, a, xP, xQ, xD, m, n) ==
  LET a24 == TLCEval(A24(p, a))
      one == F2Int(1)
      step(s, i) ==      \* s = <<[2^i]Q, P + [m mod 2^i]Q, their difference>>
        LET d == XDbl(p, a24, s[1]) IN
        IF BnBit(m, i) = 1 THEN TLCEval(<< d, XAdd(p, s[1], s[2], s[3]), s[3] >>)
        ELSE TLCEval(<< d, s[2], XAdd(p, s[1], s[3], s[2]) >>)
  IN FoldLeft(step, << << xQ, one >>, << xP, one >>, << xD, one >> >>, [i \in 1..n |-> i-1])[2]

(* ---- isogenies ---- *)
(* kernel <(x4,..)> of order 4: a' = 4 x4^4 - 2 *)
Iso4Curve(p, x4) ==
  LET s == Sq(p, Sq(p, x4)) IN F2Sub(p, F2Mul(p, F2Int(4), s), F2Int(2))
Iso4Eval(p, x4, P) ==   \* projective form of the SIKE formula for phi_4
  LET X == P[1]  Z == P[2]
      xx4 == TLCEval(Sq(p, x4))
      q == TLCEval(F2Sub(p, F2Mul(p, X, x4), Z))                          \* (x x4 - 1) Z
      r == TLCEval(F2Sub(p, X, F2Mul(p, x4, Z)))                          \* (x - x4) Z
      n1 == F2Sub(p, F2Add(p, F2Mul(p, X, xx4), X), F2Mul(p, F2Mul(p, F2Int(2), x4), Z))
      d1 == F2Sub(p, F2Mul(p, F2Mul(p, F2Int(2), x4), X), F2Mul(p, F2Add(p, xx4, F2Int(1)), Z))
      num == F2Mul(p, F2Mul(p, n1, X), Sq(p, q))
      den == F2Mul(p, F2Mul(p, d1, Z), Sq(p, r))
  IN << F2Sub(p, F2Zero, num), den >>
(* kernel of order 3: a' = (a x3 - 6 x3^2 + 6) x3 *)
Iso3Curve(p, a, x3) ==
  F2Mul(p, x3, F2Add(p, F2Int(6), F2Sub(p, F2Mul(p, a, x3), F2Mul(p, F2Int(6), Sq(p, x3)))))
Iso3Eval(p, x3, P) ==   \* phi_3(x) = x (x x3 - 1)^2 / (x - x3)^2
  << F2Mul(p, P[1], Sq(p, F2Sub(p, F2Mul(p, P[1], x3), P[2]))),
     F2Mul(p, P[2], Sq(p, F2Sub(p, P[1], F2Mul(p, x3, P[2])))) >>

(* isogeny with cyclic kernel <R>, R of order l^n (l = 4 or 3), applied to the points
   pts; returns <<codomain a, images>> *)
RECURSIVE IsoChain(_, _, _, _, _, _)
IsoChain(p, l, n, a, R, pts) ==
  IF n = 1
  THEN LET k == TLCEval(Affine1(p, R)) IN
       IF l = 4 THEN TLCEval(<< Iso4Curve(p, k), [i \in 1..Len(pts) |-> Iso4Eval(p, k, pts[i])] >>)
       ELSE TLCEval(<< Iso3Curve(p, a, k), [i \in 1..Len(pts) |-> Iso3Eval(p, k, pts[i])] >>)
  ELSE LET h   == n \div 2
           a24 == TLCEval(A24(p, a))
           R1  == TLCEval(IF l = 4 THEN XDblK(p, a24, R, 2*(n-h)) ELSE XTplK(p, a24, R, n-h))
           r   == TLCEval(IsoChain(p, l, h, a, R1, Append(pts, R)))
       IN  TLCEval(IsoChain(p, l, n-h, r[1], r[2][Len(pts)+1], SubSeq(r[2], 1, Len(pts))))

JInv(p, a) ==
  LET a2 == TLCEval(Sq(p, a))
      t  == TLCEval(F2Sub(p, a2, F2Int(3)))
  IN F2Mul(p, F2Mul(p, F2Int(256), F2Mul(p, t, Sq(p, t))), F2Inv(p, F2Sub(p, a2, F2Int(4))))

(* a of the curve through x(P), x(Q), x(P-Q) *)
CurveOf(p, x, y, z) ==
  LET s == F2Sub(p, F2Int(1), F2Add(p, F2Mul(p, x, y), F2Add(p, F2Mul(p, x, z), F2Mul(p, y, z))))
      m == F2Mul(p, F2Int(4), F2Mul(p, x, F2Mul(p, y, z)))
  IN F2Sub(p, F2Mul(p, Sq(p, s), F2Inv(p, m)), F2Add(p, x, F2Add(p, y, z)))

(* ---- serialisation ---- *)
EncF2(f, x) == BnToBytes(x[1], FpBytes(f)) \o BnToBytes(x[2], FpBytes(f))
DecF2(f, b, k) ==     \* k-th element of a key, reduced mod p
  LET n == FpBytes(f)  o == 2*n*(k-1) IN
  << FpRed(Prime(f), BnFromBytes(SubSeq(b, o+1, o+n))), FpRed(Prime(f), BnFromBytes(SubSeq(b, o+n+1, o+2*n))) >>

LoadKey(f, side, key) == BnMod(BnFromBytes(key), BnPow2(KeyBits(f, side)))
Deg(side) == IF side = "A" THEN 4 ELSE 3
Steps(f, side) == IF side = "A" THEN E2(f) \div 2 ELSE E3(f)

(* public key of the private key (little-endian bytes) on the given side *)
PubKey(f, side, key) ==
  LET p == Prime(f)
      b == Base(f, side)
      o == Base(f, Other(side))
      R == TLCEval(Ladder3(p, F2Int(6), b[1], b[2], b[3], LoadKey(f, side, key), KeyBits(f, side)))
      r == TLCEval(IsoChain(p, Deg(side), Steps(f, side), F2Int(6), R,
                    << <<o[1], F2Int(1)>>, <<o[2], F2Int(1)>>, <<o[3], F2Int(1)>> >>))
      im == r[2]
  IN EncF2(f, Affine1(p, im[1])) \o EncF2(f, Affine1(p, im[2])) \o EncF2(f, Affine1(p, im[3]))

(* shared secret of the private key with the other side's public key *)
Shared(f, side, key, pk) ==
  LET p == Prime(f)
      x == TLCEval(<< DecF2(f, pk, 1), DecF2(f, pk, 2), DecF2(f, pk, 3) >>)
      a == TLCEval(CurveOf(p, x[1], x[2], x[3]))
      R == TLCEval(Ladder3(p, a, x[1], x[2], x[3], LoadKey(f, side, key), KeyBits(f, side)))
      r == TLCEval(IsoChain(p, Deg(side), Steps(f, side), a, R, <<>>))
  IN EncF2(f, JInv(p, r[1]))

(* every field element of the encoding is < p *)
Canonical(f, pk) ==
  \A k \in 0..5 : BnLess(BnFromBytes(SubSeq(pk, k*FpBytes(f) + 1, (k+1)*FpBytes(f))), Prime(f))
(* what exporting an imported public key returns *)
Reduced(f, pk) == IF Canonical(f, pk) THEN pk
                  ELSE EncF2(f, DecF2(f, pk, 1)) \o EncF2(f, DecF2(f, pk, 2)) \o EncF2(f, DecF2(f, pk, 3))

(* ---- SIKE (F = G = H = SHAKE256) ---- *)
ModBits(key, f) == [i \in 1..Len(key) |-> IF i = Len(key)
                     THEN key[i] % (2^(KeyBits(f, "A") % 8)) ELSE key[i]]
EphKey(f, m, pk) == ModBits(SHAKE256(m \o pk, KeyBytes(f, "A")), f)
Pad1(f, j, m) == XorSeq(m, SHAKE256(j, MsgLen(f)))
(* encapsulation with message m: [ct, ss, r, c0] *)
SikeEncaps(f, pk, m) ==
  LET r  == TLCEval(EphKey(f, m, pk))
      c0 == TLCEval(PubKey(f, "A", r))
      j  == TLCEval(Shared(f, "A", r, pk))
      ct == TLCEval(c0 \o Pad1(f, j, m))
  IN [ct |-> ct, ss |-> SHAKE256(m \o ct, MsgLen(f))]
(* decryption of a ciphertext by private key sk *)
SikeDecrypt(f, sk, ct) == Pad1(f, Shared(f, "B", sk, Take(ct, PkSize(f))), Drop(ct, PkSize(f)))
SikeReject(f, s, ct) == SHAKE256(s \o ct, MsgLen(f))
SikeDecaps(f, s, sk, pk, ct) ==
  LET m  == TLCEval(SikeDecrypt(f, sk, ct))
      c0 == TLCEval(PubKey(f, "A", EphKey(f, m, pk)))
  IN IF c0 = Take(ct, PkSize(f)) THEN SHAKE256(m \o ct, MsgLen(f)) ELSE SikeReject(f, s, ct)

(* ---- the multi-recipient KEM of Katsumata, Kwiatkowski, Pintore and Prest, with
   SHAKE256(tag || .) as G1 (tag 1), G2 (tag 2) and H (tag 3) ---- *)
MkemEph(f, m) == ModBits(SHAKE256(<< 1 >> \o m, KeyBytes(f, "A")), f)
MkemPart(f, j, m) == XorSeq(m, SHAKE256(<< 2 >> \o j, MsgLen(f)))
MkemSecret(f, m) == SHAKE256(<< 3 >> \o m, MsgLen(f))
MkemEncaps(f, pks, m) ==
  LET r == TLCEval(MkemEph(f, m)) IN
  TLCEval([ct0 |-> PubKey(f, "A", r),
           cts |-> [i \in DOMAIN pks |-> TLCEval(MkemPart(f, Shared(f, "A", r, pks[i]), m))],
           ss |-> MkemSecret(f, m)])
MkemDecaps(f, s, sk, pk, ct0, c) ==
  LET m == TLCEval(MkemPart(f, Shared(f, "B", sk, ct0), c))
      r == TLCEval(MkemEph(f, m))
      good == PubKey(f, "A", r) = ct0 /\ MkemPart(f, Shared(f, "A", r, pk), m) = c
  IN MkemSecret(f, IF good THEN m ELSE s)
MkemZero(f) == Zeros(PkSize(f))
=============================================================================
