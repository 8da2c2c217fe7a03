----------------------------- MODULE LibSelfTest -----------------------------
(* Evaluated twice by the framework: with the Java overrides and without them.
   Every printed value must be the same. *)
EXTENDS Keccak, SM3Fn, CtrDrbgFn, BigNum, Integers
CONSTANT Salt

(* cheap deterministic byte sequence *)
Rnd(seed, n) == FoldLeft(LAMBDA acc, i : LET s == (acc[2] * 1103 + 12345 + i) % 1000003 IN
                    << Append(acc[1], (s \div 7) % 256), s >>,
                    << <<>>, (seed * 7919 + 104729 + Salt) % 1000003 >>, [i \in 1..n |-> i])[1]

P434 == BnSub(BnMul(BnPow2(216), FoldLeft(LAMBDA a, i : BnMul(a, BnInt(3)), BnInt(1), [i \in 1..137 |-> i])), BnInt(1))
PSmall == BnInt(1000003)
N(x) == BnToBytes(x, 120)
A1 == FpRed(P434, BnFromBytes(Rnd(1, 60)))
B1 == FpRed(P434, BnFromBytes(Rnd(2, 60)))
X2 == << FpRed(P434, BnFromBytes(Rnd(3, 60))), FpRed(P434, BnFromBytes(Rnd(4, 60))) >>
Y2 == << FpRed(P434, BnFromBytes(Rnd(5, 60))), A1 >>
S1 == BnInt(48271)   S2 == BnInt(999983)
Q2(x) == << N(x[1]), N(x[2]) >>
Top == BnSub(P434, BnInt(1))

Results == <<
  << "xor", XorSeq(Rnd(6, 70), Rnd(7, 70)), XorByte(255, 170), Zeros(3) >>,
  << "keccak", KeccakF(Rnd(8, 200)), KeccakF(Zeros(200)), AbsorbRepeat(Rnd(8, 200), Rnd(20, 136), 2) >>,
  << "sm3", SM3Compress(Rnd(9, 32), Rnd(10, 64)), SM3Repeat(IV, Rnd(11, 64), 2), SM3(Rnd(12, 3)) >>,
  << "aes", AesEnc(Rnd(13, 16), Rnd(14, 16)), AesEnc(Rnd(15, 24), Rnd(16, 16)), AesEnc(Rnd(17, 32), Rnd(18, 16)) >>,
  << "aesd", AesDec(Rnd(13, 16), Rnd(14, 16)), AesDec(Rnd(15, 24), Rnd(16, 16)), AesDec(Rnd(17, 32), Rnd(18, 16)) >>,
  << "bn", [i \in 1..3 |-> N(BnVec(<<1,2,0,0,255,7,9>>, 2)[i])], N(BnAdd(A1, B1)), N(BnMul(A1, B1)), N(BnMod(BnMul(A1, B1), A1)), N(BnSub(BnAdd(A1, B1), B1)),
           N(BnInt(0)), N(BnInt(2147483647)), N(BnPow2(77)), N(BnHalf(A1)), N(BnHalf(Top)) >>,
  << "bn2", BnLess(A1, B1), BnLess(B1, A1), BnLess(A1, A1), BnBitLen(A1), BnBitLen(BnInt(0)), BnBitLen(BnInt(255)),
           BnBitLen(BnInt(256)), [k \in 1..9 |-> BnBit(A1, 48*k - 1)], BnFits(A1, 54), BnFits(A1, 60), BnFits(BnInt(256), 1), A1 = B1, A1 = FpAdd(P434, A1, BnInt(0)) >>,
  << "fp", N(FpAdd(P434, A1, B1)), N(FpAdd(P434, Top, Top)), N(FpSub(P434, A1, B1)), N(FpSub(P434, B1, A1)),
           N(FpSub(P434, A1, A1)), N(FpMul(P434, A1, B1)), N(FpMul(P434, Top, Top)), N(FpNeg(P434, A1)), N(FpNeg(P434, BnInt(0))) >>,
  << "fp2", N(FpPow(PSmall, S1, S2)), N(FpPow(PSmall, S1, BnInt(0))), N(FpPow(PSmall, BnInt(0), S2)), N(FpInv(PSmall, S1)), N(FpInv(PSmall, BnInt(0))),
           N(FpInv(PSmall, BnInt(1))), FpLegendre(PSmall, S1), FpLegendre(PSmall, BnInt(2)), FpLegendre(PSmall, BnInt(0)) >>,
  << "f2", Q2(F2Add(P434, X2, Y2)), Q2(F2Sub(P434, X2, Y2)), Q2(F2Mul(P434, X2, Y2)), Q2(F2Mul(P434, X2, X2)) >>,
  << "f2i", Q2(F2Inv(PSmall, <<S1, S2>>)), Q2(F2Inv(PSmall, F2Zero)), Q2(F2Inv(PSmall, <<BnInt(0), S1>>)), F2IsZero(F2Zero), F2IsZero(X2) >>
>>

(* published test vectors, asserted in both runs *)
Abc == << 97, 98, 99 >>
Vectors ==
  /\ SM3(Abc) = << 102,199,240,244, 98,238,237,217, 209,242,212,107, 220,16,228,226,
                   65,103,196,135, 92,242,247,162, 41,125,160,43, 143,75,168,224 >>
  /\ HashOut("SHA3-256", <<>>, <<>>, Abc, 32) =
       << 58,152,93,167, 79,226,37,178, 4,92,23,45, 107,211,144,189,
          133,95,8,110, 62,157,82,91, 70,191,226,69, 17,67,21,50 >>
  /\ HashOut("SHAKE128", <<>>, <<>>, <<>>, 4) = << 127, 156, 43, 164 >>
  /\ HashOut("cSHAKE128", <<>>, <<69,109,97,105,108,32,83,105,103,110,97,116,117,114,101>>, <<0,1,2,3>>, 8)
       = << 193,195,105,37, 182,64,154,4 >>
  /\ AesEnc([i \in 1..16 |-> i-1], [i \in 1..16 |-> 17*(i-1)]) =
       << 105,196,224,216, 106,123,4,48, 216,205,183,128, 112,180,197,90 >>
  /\ AesEnc([i \in 1..24 |-> i-1], [i \in 1..16 |-> 17*(i-1)]) =
       << 221,169,124,164, 134,76,223,224, 110,175,112,160, 236,13,113,145 >>
  /\ AesEnc([i \in 1..32 |-> i-1], [i \in 1..16 |-> 17*(i-1)]) =
       << 142,162,183,202, 81,103,69,191, 234,252,73,144, 75,73,96,137 >>

(* the incremental forms are the definitions *)
Incremental ==
  LET a == Rnd(30, 168)  b == Rnd(31, 5) IN
  /\ SpOut(168, 31, SpAdd(168, SpRepeat(168, SpAdd(168, SpEmpty, b), a, 2), b), 200) = SHAKE128(b \o a \o a \o b, 200)
  /\ SpOut(168, 31, SpRepeat(168, SpEmpty, a, 1), 3) = SHAKE128(a, 3)
  /\ SpFill(168, SpAdd(168, SpEmpty, b)) = SpAdd(168, SpEmpty, b \o Zeros(163))
  /\ \A n \in {0, 1, 31, 32, 33, 8191, 8192, 8193, 2097151, 2097152, 2097153, 100000000} : LeftEncodeBits(n) = LeftEncode(8 * n)
ASSUME Incremental
ASSUME Vectors
ASSUME \A i \in 1..Len(Results) : PrintT(<< "RESULT", i, Results[i] >>)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
==============================================================================
