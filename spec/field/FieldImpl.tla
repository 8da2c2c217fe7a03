------------------------------- MODULE FieldImpl -------------------------------
(* The word algorithms of arith_generic.go and fp2.go over words of base B, with N words per
   element and a prime P whose P+1 ends in Z zero words.  A step applies one routine to an
   arbitrary state of the registers, so that the initial states cover every operand in range:
   what holds for them holds along every run.  Refines FieldObj. *)
EXTENDS Integers, Sequences, TLC, FiniteSets
CONSTANTS B, N, P, Z, Mode      \* Mode: "fp", "x2" or "fp2"
VARIABLES wf, wx, done          \* registers as words; done: the routine applied

W == 0..(B-1)
Dg(v, n) == [i \in 1..n |-> (v \div (B^(i-1))) % B]        \* little-endian words
RECURSIVE Val(_)
Val(w) == IF w = << >> THEN 0 ELSE w[1] + B * Val(Tail(w))
R == B^N
Pw == Dg(P, N)
P2w == Dg(2*P, N)
P1w == Dg(P + 1, N)
ASSUME (IF Mode = "fp2" THEN 16 ELSE 4) * P < R /\ \A i \in 1..Z : P1w[i] = 0

(* word instructions: << result, carry >> *)
Add64(x, y, c) == << (x + y + c) % B, (x + y + c) \div B >>
Sub64(x, y, c) == << (x - y - c) % B, IF x - y - c < 0 THEN 1 ELSE 0 >>
Mul64(x, y) == << (x * y) \div B, (x * y) % B >>            \* << hi, lo >>

(* z = x op y with carry over n words; << words, carry >> *)
RECURSIVE Chain(_,_,_,_,_,_)
Chain(Op(_,_,_), x, y, c, i, acc) ==
  IF i > Len(x) THEN << acc, c >>
  ELSE LET t == Op(x[i], y[i], c) IN Chain(Op, x, y, t[2], i+1, Append(acc, t[1]))
Addw(x, y) == Chain(Add64, x, y, 0, 1, << >>)
Subw(x, y) == Chain(Sub64, x, y, 0, 1, << >>)
Mask(w, c) == IF c = 1 THEN w ELSE [i \in 1..Len(w) |-> 0]

AddI(x, y) == LET s == Addw(x, y)[1]  t == Subw(s, P2w) IN Addw(t[1], Mask(P2w, t[2]))[1]
SubI(x, y) == LET t == Subw(x, y) IN Addw(t[1], Mask(P2w, t[2]))[1]
ModI(x) == LET t == Subw(x, Pw) IN Addw(t[1], Mask(Pw, t[2]))[1]
AdlI(x, y) == Addw(x, y)[1]
SulI(x, y) == LET t == Subw(x, y) IN
              SubSeq(t[1], 1, N) \o Addw(SubSeq(t[1], N+1, 2*N), Mask(Pw, t[2]))[1]

(* the running sum of a column: v + B u + B^2 t *)
Acc(s, x, y) == LET m == Mul64(x, y)
                    a == Add64(m[2], s.v, 0)
                    b == Add64(m[1], s.u, a[2])
                IN [v |-> a[1], u |-> b[1], t |-> (s.t + b[2]) % B]
AccW(s, x) == LET a == Add64(s.v, x, 0)  b == Add64(s.u, 0, a[2])
              IN [v |-> a[1], u |-> b[1], t |-> (s.t + b[2]) % B]
Shift(s) == [v |-> s.u, u |-> s.t, t |-> 0]
RECURSIVE Fold(_,_,_,_)
Fold(F(_,_), s, lo, hi) == IF lo > hi THEN s ELSE Fold(F, F(s, lo), lo + 1, hi)
Zero3 == [v |-> 0, u |-> 0, t |-> 0]

MulI(x, y) ==
  LET col(st, i) ==      \* st = << sum, words >>;  i from 0
        LET lo == IF i < N THEN 0 ELSE i - N + 1
            hi == IF i < N THEN i ELSE N - 1
            s == Fold(LAMBDA a, j : Acc(a, x[j+1], y[i-j+1]), st[1], lo, hi)
        IN << Shift(s), Append(st[2], s.v) >>
      e == Fold(col, << Zero3, << >> >>, 0, 2*N - 2)
  IN Append(e[2], e[1].v)

RdcI(x) ==
  LET low(st, i) ==      \* columns 0..N-1; st = << sum, z >>
        LET s == Fold(LAMBDA a, j : IF j < i - Z + 1 THEN Acc(a, st[2][j+1], P1w[i-j+1]) ELSE a, st[1], 0, i - 1)
            s2 == AccW(s, x[i+1])
        IN << Shift(s2), Append(st[2], s2.v) >>
      l == Fold(low, << Zero3, << >> >>, 0, N - 1)
      high(st, i) ==     \* columns N..2N-2; st = << sum, z, count >>
        LET c == IF st[3] > 0 THEN st[3] - 1 ELSE 0
            s == Fold(LAMBDA a, j : IF j < N - c THEN Acc(a, st[2][j+1], P1w[i-j+1]) ELSE a, st[1], i - N + 1, N - 1)
            s2 == AccW(s, x[i+1])
        IN << Shift(s2), [st[2] EXCEPT ![i - N + 1] = s2.v], c >>
      h == Fold(high, << l[1], l[2], Z >>, N, 2*N - 2)
  IN [h[2] EXCEPT ![N] = Add64(h[1].v, x[2*N], 0)[1]]
MulPI(x, y) == RdcI(MulI(x, y))

(* x^((p-3)/4), Montgomery domain: the strategy of fp2.go is a product of powers; here the
   left-to-right exponentiation it abbreviates (the constants themselves are checked on the code) *)
RECURSIVE PowI(_,_)
PowI(x, e) == IF e = 0 THEN Dg(R % P, N)
              ELSE LET h == PowI(x, e \div 2)  s == MulPI(h, h) IN IF e % 2 = 1 THEN MulPI(s, x) ELSE s
P34I(x) == PowI(x, (P - 3) \div 4)

(* GF(p^2), as fp2.go *)
QMulI(x, y) ==
  LET ac == MulI(x[1], y[1])  bd == MulI(x[2], y[2])
      m == MulI(SubI(x[2], x[1]), SubI(y[1], y[2]))
      s == AdlI(AdlI(m, ac), bd)
  IN << RdcI(SulI(ac, bd)), RdcI(s) >>
QSqrI(x) == << RdcI(MulI(AddI(x[1], x[2]), SubI(x[1], x[2]))), RdcI(MulI(AddI(x[1], x[1]), x[2])) >>
QInvI(x) ==
  LET f1 == RdcI(AdlI(MulI(x[1], x[1]), MulI(x[2], x[2])))
      f == P34I(MulPI(f1, f1))
      f2 == MulPI(MulPI(f, f), f1)
  IN << RdcI(MulI(x[1], f2)), RdcI(MulI(SubI(Dg(0, N), x[2]), f2)) >>
QFromMI(x) == LET c(w) == ModI(RdcI(w \o Dg(0, N))) IN << c(x[1]), c(x[2]) >>
R2w == Dg((R * R) % P, N)
QToMI(x) == << MulPI(x[1], R2w), MulPI(x[2], R2w) >>

(* ---- the machine: registers 0, 1 (mode fp), 0..3 (mode fp2), double width 0, 1 ---- *)
RF == IF Mode = "fp2" THEN 0..3 ELSE 0..1
E2p == {Dg(v, N) : v \in 0..(2*P - 1)}
Init == /\ done = << >>
        /\ wf \in (IF Mode = "x2" THEN [RF -> {Dg(0, N)}] ELSE [RF -> E2p])
        /\ wx \in (IF Mode = "x2" THEN [{0, 1} -> {Dg(v, 2*N) : v \in 0..(P * R - 1)}] ELSE [{0, 1} -> {Dg(0, 2*N)}])
F1(d, v) == wf' = [wf EXCEPT ![d] = v] /\ UNCHANGED wx
X1(d, v) == wx' = [wx EXCEPT ![d] = v] /\ UNCHANGED wf
Q(j) == << wf[2*j], wf[2*j+1] >>
Q1(d, v) == wf' = [wf EXCEPT ![2*d] = v[1], ![2*d+1] = v[2]] /\ UNCHANGED wx
Did(o) == done = << >> /\ done' = o
IAdd == \E d, a, b \in RF : Did(<< "add", d, a, b >>) /\ F1(d, AddI(wf[a], wf[b]))
ISub == \E d, a, b \in RF : Did(<< "sub", d, a, b >>) /\ F1(d, SubI(wf[a], wf[b]))
IMod == \E d \in RF : Did(<< "mod", d >>) /\ F1(d, ModI(wf[d]))
IMulP == \E d, a, b \in RF : Did(<< "mulP", d, a, b >>) /\ F1(d, MulPI(wf[a], wf[b]))
IP34 == \E d, a \in RF : Did(<< "p34", d, a >>) /\ F1(d, P34I(wf[a]))
IMul == \E a, b \in RF : Did(<< "mul", 0, a, b >>) /\ X1(0, MulI(wf[a], wf[b]))
IAdl == \E d, a \in {0, 1} : \E b \in {1} : Did(<< "adl", d, a, b >>) /\ X1(d, AdlI(wx[a], wx[b]))
ISul == \E d, a \in {0, 1} : \E b \in {1 - a} : Did(<< "sul", d, a, b >>) /\ X1(d, SulI(wx[a], wx[b]))
IRdc == Did(<< "rdc", 0, 0 >>) /\ wf' = [wf EXCEPT ![0] = RdcI(wx[0])] /\ wx' = [wx EXCEPT ![0] = << >>]
IQMul == \E d \in {0, 1} : Did(<< "qmul", d, 0, 1 >>) /\ Q1(d, QMulI(Q(0), Q(1)))
IQSqr == Did(<< "qsqr", 0, 0 >>) /\ Q1(0, QSqrI(Q(0)))
IQInv == Did(<< "qinv", 1, 0 >>) /\ Q1(1, QInvI(Q(0)))
IQFromM == Did(<< "qfromm", 1, 0 >>) /\ Q1(1, QFromMI(Q(0)))
IQToM == Did(<< "qtom", 1, 0 >>) /\ Q1(1, QToMI(Q(0)))
Next == IF Mode = "fp" THEN IAdd \/ ISub \/ IMod \/ IMulP \/ IP34 \/ IMul
        ELSE IF Mode = "x2" THEN IAdl \/ ISul \/ IRdc
        ELSE IQMul \/ IQSqr \/ IQInv \/ IQFromM \/ IQToM
ivars == << wf, wx, done >>
Spec == Init /\ [][Next]_ivars

(* ---- refinement of FieldObj ---- *)
FF == INSTANCE FieldFn
Fld == TLCEval(FF!MkField(FF!BnInt(P), FF!BnInt(R)))
Num(w) == IF w = << >> THEN << >> ELSE << FF!BnInt(Val(w)) >>
O == INSTANCE FieldObj WITH fld <- Fld, fp <- [r \in RF |-> Num(wf[r])], xx <- [r \in {0, 1} |-> Num(wx[r])], res <- << >>
o1 == done'[1]
ByName ==
  CASE o1 = "add" -> O!Add(done'[2], done'[3], done'[4])
    [] o1 = "sub" -> O!Sub(done'[2], done'[3], done'[4])
    [] o1 = "mod" -> O!Mod(done'[2])
    [] o1 = "mulP" -> O!MulP(done'[2], done'[3], done'[4])
    [] o1 = "p34" -> O!P34(done'[2], done'[3])
    [] o1 = "mul" -> O!Mul(done'[2], done'[3], done'[4])
    [] o1 = "adl" -> O!Adl(done'[2], done'[3], done'[4])
    [] o1 = "sul" -> O!Sul(done'[2], done'[3], done'[4])
    [] o1 = "rdc" -> O!Rdc(0, 0)
    [] o1 = "qmul" -> O!QMul(done'[2], done'[3], done'[4])
    [] o1 = "qsqr" -> O!QSqr(done'[2], done'[3])
    [] o1 = "qinv" -> O!QInv(done'[2], done'[3])
    [] o1 = "qfromm" -> O!QFromM(done'[2], done'[3])
    [] o1 = "qtom" -> O!QToM(done'[2], done'[3])
Refines == [][ByName]_ivars
(* no result is out of range *)
InRange == \A r \in RF : Val(wf[r]) < 2 * P
=============================================================================
