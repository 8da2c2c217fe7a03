---------------------------- MODULE CurveSelfTest ----------------------------
(* Evaluated with and without the curve-level overrides (nv.OvC); every printed
   value must be the same.  Also asserts defining properties of the constants. *)
EXTENDS SidhFn
CONSTANT Salt
C == INSTANCE CsidhFn
Rnd(seed, n) == FoldLeft(LAMBDA acc, i : LET s == (acc[2] * 1103 + 12345 + i) % 1000003 IN
                    << Append(acc[1], (s \div 7) % 256), s >>,
                    << <<>>, (seed * 7919 + 104729 + Salt) % 1000003 >>, [i \in 1..n |-> i])[1]
El(f, s) == << FpRed(Prime(f), BnFromBytes(Rnd(s, 100))), FpRed(Prime(f), BnFromBytes(Rnd(s + 1, 100))) >>
Q2(x) == << BnToBytes(x[1], 95), BnToBytes(x[2], 95) >>
QP(x) == << Q2(x[1]), Q2(x[2]) >>
Cn(x) == BnToBytes(x, 65)
CPt(s) == << BnMod(BnFromBytes(Rnd(s, 70)), C!CP), BnMod(BnFromBytes(Rnd(s + 1, 70)), C!CP) >>

Side(f, s) ==
  LET p == Prime(f)  a == El(f, s)  P == << El(f, s+2), El(f, s+4) >>
  IN << QP(XDblK(p, a, P, 7)), QP(XTplK(p, a, P, 5)),
        QP(Ladder3(p, a, El(f, s+6), El(f, s+8), El(f, s+10), BnFromBytes(Rnd(s + 12, 60)), KeyBits(f, "A"))),
        QP(Iso4Eval(p, El(f, s+14), P)), QP(Iso3Eval(p, El(f, s+14), P)) >>
Key(f, side, s) == [i \in 1..KeyBytes(f, side) |-> Rnd(s, KeyBytes(f, side))[i]]
Isos(l, s) == LET r == C!CIso(BnMod(BnFromBytes(Rnd(s, 70)), C!CP), CPt(s + 1), l, CPt(s + 3))
              IN << Cn(r[1]), Cn(r[2][1]), Cn(r[2][2]) >>
Results == <<
  << "p434", Side("p434", 100), Side("p434", 200) >>, << "p503", Side("p503", 300) >>, << "p751", Side("p751", 400) >>,
  << "keys", PubKey("p434", "A", Key("p434", "A", 9)), PubKey("p434", "B", Key("p434", "B", 10)) >>,
  << "csidh", [k \in 1..4 |-> LET r == C!CMul(BnMod(BnFromBytes(Rnd(500 + k, 70)), C!CP), CPt(600 + 2*k),
                                       BnFromBytes(Rnd(700 + k, 16 * k - 15))) IN << Cn(r[1]), Cn(r[2]) >> ],
     Isos(3, 800), Isos(5, 810), Isos(7, 820), Isos(23, 830), Isos(587, 840) >> >>

(* defining properties of the frozen base points: exact orders, consistent differences *)
Inf(P) == F2IsZero(P[2])
Params(f) ==
  LET p == Prime(f)  a24 == A24(p, F2Int(6))
      A == Base(f, "A")  B == Base(f, "B")
      pt(x) == << x, F2Int(1) >>
  IN /\ \A i \in 1..2 : /\ Inf(XDblK(p, a24, pt(A[i]), E2(f)))
                        /\ ~ Inf(XDblK(p, a24, pt(A[i]), E2(f) - 1))
                        /\ Inf(XTplK(p, a24, pt(B[i]), E3(f)))
                        /\ ~ Inf(XTplK(p, a24, pt(B[i]), E3(f) - 1))
     /\ CurveOf(p, A[1], A[2], A[3]) = F2Int(6)
     /\ CurveOf(p, B[1], B[2], B[3]) = F2Int(6)
Agree(f) ==
  LET ka == Key(f, "A", 9)  kb == Key(f, "B", 10) IN
  Shared(f, "A", ka, PubKey(f, "B", kb)) = Shared(f, "B", kb, PubKey(f, "A", ka))
ASSUME \A f \in Fields : Params(f) /\ Agree(f)
ASSUME C!CP = BnFromBytes(<< 123,200,198,51,5,185,129,27, 53,168,172,87,244,27,114,194, 37,79,11,31,204,48,103,81,
   7,85,243,103,197,198,170,167, 205,201,34,147,198,252,251,90, 66,140,200,237,58,8,45,180, 74,76,62,94,209,176,138,252,
   191,137,15,116,143,142,180,101 >>)
ASSUME \A i \in 1..Len(Results) : PrintT(<< "RESULT", i, Results[i] >>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
==============================================================================
