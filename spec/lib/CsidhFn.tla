------------------------------ MODULE CsidhFn -------------------------------
(* CSIDH-512 (Castryck, Lange, Martindale, Panny, Renes 2018) as functions on
   byte strings.  Curves E_a: y^2 = x^3 + a x^2 + x over GF(p),
   p = 4 l_1 ... l_74 - 1.  Isogenies by the affine formulas of Costello-Hisil/Renes. *)
EXTENDS BigNum

Ells == << 3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,
           109,113,127,131,137,139,149,151,157,163,167,173,179,181,191,193,197,199,211,223,
           227,229,233,239,241,251,257,263,269,271,277,281,283,293,307,311,313,317,331,337,
           347,349,353,359,367,373,587 >>
NEll == 74

ProdOf(idx) == FoldLeft(LAMBDA acc, i : BnMul(acc, BnInt(Ells[i])), BnInt(1), idx)
AllIdx == [i \in 1..NEll |-> i]
CP == TLCEval(BnSub(BnMul(BnInt(4), ProdOf(AllIdx)), BnInt(1)))
CR == TLCEval(BnMod(BnPow2(512), CP))                        \* Montgomery R mod p
CRinv == TLCEval(FpInv(CP, CR))

(* ---- x-only arithmetic over GF(p) ---- *)
CDbl(a24, P) ==
  LET u == TLCEval(FpAdd(CP, P[1], P[2]))   v == TLCEval(FpSub(CP, P[1], P[2]))
      s == TLCEval(FpMul(CP, u, u))         d == TLCEval(FpMul(CP, v, v))
      c == TLCEval(FpSub(CP, s, d))
  IN << FpMul(CP, s, d), FpMul(CP, c, FpAdd(CP, d, FpMul(CP, a24, c))) >>
CAdd(P, Q, D) ==
  LET u == FpMul(CP, FpSub(CP, P[1], P[2]), FpAdd(CP, Q[1], Q[2]))
      v == FpMul(CP, FpAdd(CP, P[1], P[2]), FpSub(CP, Q[1], Q[2]))
      s == TLCEval(FpAdd(CP, u, v))  d == TLCEval(FpSub(CP, u, v))
  IN << FpMul(CP, D[2], FpMul(CP, s, s)), FpMul(CP, D[1], FpMul(CP, d, d)) >>
CA24(a) == FpMul(CP, FpAdd(CP, a, BnInt(2)), FpInv(CP, BnInt(4)))
(* x([k]P), k >= 1: Montgomery ladder; the point at infinity has Z = 0 *)
CMul(a, P, k) ==
  LET a24 == TLCEval(CA24(a))
      n == BnBitLen(k)
      step(s, i) == IF BnBit(k, n - 1 - i) = 1
                    THEN TLCEval(<< CAdd(s[1], s[2], P), CDbl(a24, s[2]) >>)
                    ELSE TLCEval(<< CDbl(a24, s[1]), CAdd(s[1], s[2], P) >>)
  IN FoldLeft(step, << P, CDbl(a24, P) >>, [i \in 1..(n-1) |-> i])[1]
CInf(P) == P[2] = BnInt(0)

(* isogeny of odd degree l with kernel <K>: <<a', image of P>> *)
CIso(a, K, l, P) ==
  LET d   == (l - 1) \div 2
      a24 == TLCEval(CA24(a))
      K2  == CDbl(a24, K)
      Ks  == FoldLeft(LAMBDA s, i : Append(s, IF i = 1 THEN K ELSE IF i = 2 THEN K2
                                              ELSE CAdd(s[i-1], K, s[i-2])),
                      <<>>, [i \in 1..d |-> i])
      step(s, i) ==     \* s = <<sum x_i, sum 1/x_i, prod x_i, image>>
        LET k == Ks[i]
            w == TLCEval(FpInv(CP, FpMul(CP, k[1], k[2])))
            x == TLCEval(FpMul(CP, FpMul(CP, k[1], k[1]), w))
            y == FpMul(CP, FpMul(CP, k[2], k[2]), w)
        IN TLCEval(<< FpAdd(CP, s[1], x), FpAdd(CP, s[2], y), FpMul(CP, s[3], x),
                << FpMul(CP, s[4][1], FpSub(CP, FpMul(CP, P[1], x), P[2])),
                   FpMul(CP, s[4][2], FpSub(CP, P[1], FpMul(CP, x, P[2]))) >> >>)
      r == FoldLeft(step, << BnInt(0), BnInt(0), BnInt(1), << BnInt(1), BnInt(1) >> >>, [i \in 1..d |-> i])
      six == BnInt(6)
      a2 == FpMul(CP, FpMul(CP, r[3], r[3]),
                  FpAdd(CP, a, FpSub(CP, FpMul(CP, six, r[2]), FpMul(CP, six, r[1]))))
  IN << a2, << FpMul(CP, P[1], FpMul(CP, r[4][1], r[4][1])), FpMul(CP, P[2], FpMul(CP, r[4][2], r[4][2])) >> >>

(* is x the abscissa of a point of E_a over GF(p) (else: of its twist) *)
Rhs(a, x) == FpMul(CP, x, FpAdd(CP, FpMul(CP, x, x), FpAdd(CP, FpMul(CP, a, x), BnInt(1))))

Pos(s) == SelectSeq(AllIdx, LAMBDA i : s[i] > 0)

(* one batch: act by the primes of ex (one sign) once, using the point with abscissa x *)
CBatch(a, ex, x) ==
  LET S == Pos(ex)
      rest == SelectSeq(AllIdx, LAMBDA i : ex[i] = 0)
      P0 == CMul(a, << x, BnInt(1) >>, BnMul(BnInt(4), ProdOf(rest)))
      step(s, k) ==      \* s = <<a, P, ex>>; primes from the largest down
        LET j == Len(S) + 1 - k
            i == S[j]
            K == IF CInf(s[2]) THEN s[2] ELSE TLCEval(CMul(s[1], s[2], ProdOf(SubSeq(S, 1, j - 1))))
        IN IF CInf(K) THEN s
           ELSE LET r == CIso(s[1], K, Ells[i], s[2])
                IN TLCEval(<< r[1], r[2], [s[3] EXCEPT ![i] = @ - 1] >>)
      (* the point keeps order dividing the product of the primes not yet used, and those
         skipped because K was infinity do not divide its order *)
      r == FoldLeft(step, << a, P0, ex >>, [k \in 1..Len(S) |-> k])
  IN << r[1], r[3] >>

RECURSIVE CLoop(_, _, _, _)
CLoop(a, pos, neg, x) ==
  IF Pos(pos) = <<>> /\ Pos(neg) = <<>> THEN a
  ELSE LET c == FpLegendre(CP, TLCEval(Rhs(a, BnInt(x)))) IN
       IF c = 1 /\ Pos(pos) # <<>>
       THEN LET r == TLCEval(CBatch(a, pos, BnInt(x))) IN CLoop(r[1], r[2], neg, x + 1)
       ELSE IF c = 2 /\ Pos(neg) # <<>>
       THEN LET r == TLCEval(CBatch(a, neg, BnInt(x))) IN CLoop(r[1], pos, r[2], x + 1)
       ELSE CLoop(a, pos, neg, x + 1)

(* the class-group action of the exponent vector e (integers) on E_a *)
CAction(a, e) ==
  CLoop(a, [i \in 1..NEll |-> IF e[i] > 0 THEN e[i] ELSE 0],
           [i \in 1..NEll |-> IF e[i] < 0 THEN -e[i] ELSE 0], 2)

(* E_a (a # +-2) is supersingular iff [p+1]P = 0 for points of order > 4 sqrt(p).
   Divide and conquer over the primes of p+1; result: <<decided, supersingular>> *)
RECURSIVE COrder(_, _, _, _)
COrder(a, P, idx, ord) ==     \* P has been multiplied by 4 and all primes outside idx
  IF Len(idx) = 1
  THEN IF CInf(P) THEN << "more", ord >>
       ELSE IF ~ CInf(CMul(a, P, BnInt(Ells[idx[1]]))) THEN << "no", ord >>
       ELSE LET o == BnMul(ord, BnInt(Ells[idx[1]])) IN
            IF BnLess(BnMul(BnInt(16), CP), BnMul(o, o)) THEN << "yes", o >> ELSE << "more", o >>
  ELSE LET h == Len(idx) \div 2
           L == SubSeq(idx, 1, h)  R == SubSeq(idx, h+1, Len(idx))
           r == COrder(a, TLCEval(CMul(a, P, ProdOf(L))), R, ord)
       IN IF r[1] # "more" THEN r ELSE COrder(a, TLCEval(CMul(a, P, ProdOf(R))), L, r[2])
RECURSIVE CSuper(_, _)
CSuper(a, x) ==
  LET r == COrder(a, CMul(a, << BnInt(x), BnInt(1) >>, BnInt(4)), AllIdx, BnInt(1))
  IN IF r[1] = "more" THEN CSuper(a, x + 1) ELSE r[1] = "yes"

(* ---- serialisation ---- *)
PkToNum(b) == BnFromBytes(b)
DecPk(b) == FpMul(CP, BnFromBytes(b), CRinv)                 \* out of Montgomery form
EncPk(a) == BnToBytes(FpMul(CP, a, CR), 64)
Nib(x) == IF x >= 8 THEN x - 16 ELSE x
(* exponents of a 37-byte private key: high nibble first *)
Exps(k) == [i \in 1..NEll |-> LET b == k[((i-1) \div 2) + 1] IN
              IF i % 2 = 1 THEN Nib(b \div 16) ELSE Nib(b % 16)]

CValid(b) ==
  LET a == DecPk(b) IN
  /\ BnLess(PkToNum(b), CP)
  /\ a # BnInt(2) /\ a # BnSub(CP, BnInt(2))
  /\ CSuper(a, 2)
(* the points an implementation draws from random bytes (a coordinate in Montgomery form in
   each 64-byte block, 511 bits, drawn again unless reduced) prove supersingularity: the
   product of the orders they show is above 4 sqrt(p) *)
CProof(b, points) ==
  LET a == DecPk(b)
      blk(i) == BnFromBytes([j \in 1..64 |-> LET v == points[64*(i-1) + j] IN IF j = 64 THEN v % 128 ELSE v])
      st(s, i) == IF s[1] THEN s
                  ELSE LET x == blk(i) IN
                       IF ~ BnLess(x, CP) THEN s
                       ELSE LET r == COrder(a, CMul(a, << FpMul(CP, x, CRinv), BnInt(1) >>, BnInt(4)), AllIdx, s[2])
                            IN TLCEval(<< r[1] = "yes", r[2] >>)
  IN FoldLeft(st, << FALSE, BnInt(1) >>, [i \in 1..(Len(points) \div 64) |-> i])[1]
CPub(sk) == EncPk(CAction(BnInt(0), Exps(sk)))
CShared(sk, pk) == EncPk(CAction(DecPk(pk), Exps(sk)))

(* private key from RNG bytes: each 64-byte block is scanned for signed bytes in [-5,5];
   <<key, number of blocks used>> or <<"short", 0>> *)
CGenKey(stream) ==
  LET ok(b) == b <= 5 \/ b >= 251
      st(s, k) == IF s[2] = 74 \/ (~ ok(stream[k])) THEN s
                  ELSE LET i == s[2]   b == stream[k] % 16
                           q == (i \div 2) + 1
                       IN << [s[1] EXCEPT ![q] = IF i % 2 = 0 THEN b ELSE @ + 16*b], i + 1, (k + 63) \div 64 >>
      r == FoldLeft(st, << Zeros(37), 0, 0 >>, [k \in 1..Len(stream) |-> k])
  IN IF r[2] = 74 THEN << r[1], r[3] >> ELSE << "short", 0 >>
=============================================================================
