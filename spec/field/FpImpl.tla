------------------------------- MODULE FpImpl -------------------------------
(* The word algorithms of dh/csidh/fp511.go over words of base B, N words per element, odd
   prime P with 2P < B^N.  As FieldImpl: every operand in range is an initial state.
   Refines FieldObj. *)
EXTENDS Integers, Sequences, TLC, FieldFn
CONSTANTS B, N, P, Win, Mode     \* Win: bits per window of the exponentiation, divides the bits of a word
VARIABLES wf, wx, wres, done

Dg(v, n) == [i \in 1..n |-> (v \div (B^(i-1))) % B]
RECURSIVE Val(_)
Val(w) == IF w = << >> THEN 0 ELSE w[1] + B * Val(Tail(w))
R == B^N
Pw == Dg(P, N)
PNegInv == CHOOSE v \in 0..(B-1) : (v * P + 1) % B = 0
ASSUME 2 * P < R
Add64(x, y, c) == << (x + y + c) % B, (x + y + c) \div B >>
Sub64(x, y, c) == << (x - y - c) % B, IF x - y - c < 0 THEN 1 ELSE 0 >>
Mul64(x, y) == << (x * y) \div B, (x * y) % B >>
RECURSIVE Chain(_,_,_,_,_,_)
Chain(Op(_,_,_), x, y, c, i, acc) ==
  IF i > Len(x) THEN << acc, c >>
  ELSE LET t == Op(x[i], y[i], c) IN Chain(Op, x, y, t[2], i+1, Append(acc, t[1]))
Pick(w, x, y) == IF w = 1 THEN x ELSE y            \* per word: the mask is all ones or zero
ReduceI(r) == LET t == Chain(Sub64, r, Pw, 0, 1, << >>) IN [i \in 1..N |-> Pick(t[2], r[i], t[1][i])]
AddI(x, y) == ReduceI(Chain(Add64, x, y, 0, 1, << >>)[1])
Sub512I(x, y) == Chain(Sub64, x, y, 0, 1, << >>)
SubI(x, y) == LET t == Sub512I(x, y) IN Chain(Add64, t[1], [i \in 1..N |-> Pick(t[2], Pw[i], 0)], 0, 1, << >>)[1]
(* x * m: N + 1 words *)
RECURSIVE Mul576I(_,_,_,_,_)
Mul576I(x, m, i, c, acc) ==
  IF i > N THEN Append(acc, c)
  ELSE LET h == Mul64(m, x[i])
           a == Add64(h[2], c, 0)
       IN Mul576I(x, m, i + 1, (h[1] + a[2]) % B, Append(acc, a[1]))
MulFullI(x, m) == Mul576I(x, m, 1, 0, << >>)
Mul512I(x, m) == SubSeq(MulFullI(x, m), 1, N)
(* mulGeneric: in the last round the first carry is the one left over by the round before *)
RECURSIVE Rounds(_,_,_,_,_)
Rounds(x, y, s, left, i) ==
  IF i > N THEN s
  ELSE LET q == ((x[i] * y[1] + s[1]) * PNegInv) % B
           a == Chain(Add64, MulFullI(Pw, q), MulFullI(y, x[i]), IF i = N THEN left ELSE 0, 1, << >>)[1]
           c0 == Add64(a[1], s[1], 0)[2]
           b == Chain(Add64, SubSeq(a, 2, N), SubSeq(s, 2, N), c0, 1, << >>)
       IN Rounds(x, y, Append(b[1], Add64(a[N+1], 0, b[2])[1]), b[2], i + 1)
MulGenericI(x, y) == Rounds(x, y, [i \in 1..N |-> 0], 0, 1)
MulI(x, y) == ReduceI(MulGenericI(x, y))
(* fixed windows of Win bits, most significant first *)
One == Dg(R % P, N)
WB == CHOOSE k \in 1..8 : 2^k = B
RECURSIVE Tab(_,_)
Tab(b, k) == IF k = 0 THEN One ELSE IF k = 1 THEN b
             ELSE IF k % 2 = 0 THEN MulI(Tab(b, k \div 2), Tab(b, k \div 2)) ELSE MulI(Tab(b, k - 1), b)
RECURSIVE Sq(_,_)
Sq(r, k) == IF k = 0 THEN r ELSE Sq(MulI(r, r), k - 1)
RECURSIVE Exp(_,_,_,_)
Exp(r, b, e, i) ==
  IF i < 0 THEN ReduceI(r)
  ELSE LET idx == (e[(i * Win) \div WB + 1] \div (2^((i * Win) % WB))) % (2^Win)
       IN Exp(MulI(Sq(r, Win), Tab(b, idx)), b, e, i - 1)
ExpI(b, e, bits) == Exp(One, b, e, bits \div Win - 1)
LessI(x, y) == \E i \in 1..N : x[i] < y[i] /\ \A j \in (i+1)..N : x[j] = y[j]
NonResI(x) == IF ExpI(x, Dg((P - 1) \div 2, N), N * WB) = One THEN 0 ELSE 1

(* registers 0, 1 *)
RF == {0, 1}
Lim == IF Mode = "mod" THEN P ELSE R
Init == /\ done = << >> /\ wres = << >> /\ wx = [r \in {0} |-> << >>]
        /\ wf \in [RF -> {Dg(v, N) : v \in 0..(Lim - 1)}]
F1(d, v) == wf' = [wf EXCEPT ![d] = v] /\ UNCHANGED wx /\ wres' = << >>
Did(o) == done = << >> /\ done' = o
IAdd == \E d, a, b \in RF : Did(<< "add", d, a, b >>) /\ F1(d, AddI(wf[a], wf[b]))
ISub == \E d, a, b \in RF : Did(<< "sub", d, a, b >>) /\ F1(d, SubI(wf[a], wf[b]))
IMul == \E d, a, b \in RF : Did(<< "mul", d, a, b >>) /\ F1(d, MulI(wf[a], wf[b]))
IPow == \E d \in RF : Did(<< "pow", d, 0, 1 >>) /\ F1(d, ExpI(wf[0], wf[1], N * WB))
IPow64 == \E e \in 0..(B-1) : Did(<< "pow64", 0, 0, e >>) /\ F1(0, ExpI(wf[0], << e >>, WB))
INonQR == Did(<< "nonqr", 0 >>) /\ UNCHANGED << wf, wx >> /\ wres' = << NonResI(wf[0]) >>
IWSub == \E d, a, b \in RF : LET t == Sub512I(wf[a], wf[b]) IN
           Did(<< "wsub", d, a, b >>) /\ wf' = [wf EXCEPT ![d] = t[1]] /\ UNCHANGED wx /\ wres' = << t[2] >>
IWMul == \E d \in RF, m \in 0..(B-1) : Did(<< "wmul", d, 0, m >>) /\ F1(d, Mul512I(wf[0], m))
IWMulFull == \E m \in 0..(B-1) : Did(<< "wmulfull", 0, 0, m >>) /\ wx' = [wx EXCEPT ![0] = MulFullI(wf[0], m)] /\ UNCHANGED wf /\ wres' = << >>
ILess == Did(<< "less", 0, 1 >>) /\ UNCHANGED << wf, wx >> /\ wres' = << IF LessI(wf[0], wf[1]) THEN 1 ELSE 0 >>
Next == IF Mode = "mod" THEN IAdd \/ ISub \/ IMul \/ IPow \/ IPow64 \/ INonQR
        ELSE IWSub \/ IWMul \/ IWMulFull \/ ILess
ivars == << wf, wx, wres, done >>
Spec == Init /\ [][Next]_ivars

Fld == TLCEval(MkField(BnInt(P), BnInt(R)))
Num(w) == IF w = << >> THEN << >> ELSE << BnInt(Val(w)) >>
O == INSTANCE FieldObj WITH fld <- Fld, fp <- [r \in RF |-> Num(wf[r])], xx <- [r \in {0} |-> Num(wx[r])], res <- wres
ByName ==
  LET o == done' IN
  CASE o[1] = "add" -> O!CAdd(o[2], o[3], o[4])
    [] o[1] = "sub" -> O!CSub(o[2], o[3], o[4])
    [] o[1] = "mul" -> O!CMul(o[2], o[3], o[4])
    [] o[1] = "pow" -> O!CPow(o[2], o[3], o[4])
    [] o[1] = "pow64" -> O!CPow64(o[2], o[3], << BnInt(o[4]) >>)
    [] o[1] = "nonqr" -> O!CNonQR(o[2])
    [] o[1] = "wsub" -> O!CWSub(o[2], o[3], o[4])
    [] o[1] = "wmul" -> O!CWMul(o[2], o[3], << BnInt(o[4]) >>)
    [] o[1] = "wmulfull" -> O!CWMulFull(o[2], o[3], << BnInt(o[4]) >>)
    [] o[1] = "less" -> O!CLess(o[2], o[3])
Refines == [][ByName]_ivars
=============================================================================
