------------------------------- MODULE FieldObj -------------------------------
(* A register machine over the field routines.  A register holds a vector of numbers, so one
   instruction is one routine applied to several operands; an undefined register is the empty
   vector.  Registers 2j and 2j+1 of fp are the two parts of element j of GF(p^2).  Each action
   relates the machine before and after: only the named destination changes, and how. *)
EXTENDS FieldFn
VARIABLES fld,     \* the field
          fp, xx,  \* single and double width registers
          res      \* the last returned flags
fvars == << fld, fp, xx, res >>
Und == << >>
Def(v) == v # << >>
OnlyF(d) == fp' = [fp EXCEPT ![d] = fp'[d]] /\ UNCHANGED << fld, xx >>
OnlyX(d) == xx' = [xx EXCEPT ![d] = xx'[d]] /\ UNCHANGED << fld, fp >>
Lanes(R(_), v) == \A i \in 1..Len(v) : R(i)
Same(z, x) == Len(z) = Len(x)

Op3(R(_,_,_,_), d, a, b) ==
  /\ OnlyF(d) /\ Same(fp'[d], fp[a]) /\ res' = << >>
  /\ \A i \in 1..Len(fp[a]) : R(fld, fp'[d][i], fp[a][i], fp[b][i])
Op2(R(_,_,_), d, a) ==
  /\ OnlyF(d) /\ Same(fp'[d], fp[a]) /\ res' = << >>
  /\ \A i \in 1..Len(fp[a]) : R(fld, fp'[d][i], fp[a][i])
Add(d, a, b) == Op3(RAdd, d, a, b)
Sub(d, a, b) == Op3(RSub, d, a, b)
MulP(d, a, b) == Op3(RMont, d, a, b)
Mod(d) == Op2(RMod, d, d)
P34(d, a) == Op2(RPow34, d, a)
Swap(a, b, c) ==
  /\ fp' = (IF c = 1 THEN [fp EXCEPT ![a] = fp[b], ![b] = fp[a]] ELSE fp)
  /\ UNCHANGED << fld, xx >> /\ res' = << >>
(* double width *)
Mul(d, a, b) ==
  /\ OnlyX(d) /\ Same(xx'[d], fp[a]) /\ res' = << >>
  /\ \A i \in 1..Len(fp[a]) : XMulR(fld, xx'[d][i], fp[a][i], fp[b][i])
OpX(R(_,_,_,_), d, a, b) ==
  /\ OnlyX(d) /\ Same(xx'[d], xx[a]) /\ res' = << >>
  /\ \A i \in 1..Len(xx[a]) : R(fld, xx'[d][i], xx[a][i], xx[b][i])
Adl(d, a, b) == OpX(XAddR, d, a, b)
Sul(d, a, b) == OpX(XSubR, d, a, b)
Rdc(d, a) ==        \* the double width operand is lost
  /\ fp' = [fp EXCEPT ![d] = fp'[d]] /\ xx' = [xx EXCEPT ![a] = Und] /\ UNCHANGED fld /\ res' = << >>
  /\ Same(fp'[d], xx[a])
  /\ \A i \in 1..Len(xx[a]) : RRdc(fld, fp'[d][i], xx[a][i])
(* GF(p^2) *)
QOf(f, j, i) == << f[2*j][i], f[2*j+1][i] >>
OnlyQ(d) == fp' = [fp EXCEPT ![2*d] = fp'[2*d], ![2*d+1] = fp'[2*d+1]] /\ UNCHANGED << fld, xx >> /\ res' = << >>
QOp3(R(_,_,_,_), d, a, b) ==
  /\ OnlyQ(d) /\ Same(fp'[2*d], fp[2*a]) /\ Same(fp'[2*d+1], fp[2*a])
  /\ \A i \in 1..Len(fp[2*a]) : R(fld, QOf(fp', d, i), QOf(fp, a, i), QOf(fp, b, i))
QOp2(R(_,_,_), d, a) ==
  /\ OnlyQ(d) /\ Same(fp'[2*d], fp[2*a]) /\ Same(fp'[2*d+1], fp[2*a])
  /\ \A i \in 1..Len(fp[2*a]) : R(fld, QOf(fp', d, i), QOf(fp, a, i))
QAdd(d, a, b) == QOp3(QAddR, d, a, b)
QSub(d, a, b) == QOp3(QSubR, d, a, b)
QMul(d, a, b) == QOp3(QMulR, d, a, b)
QSqr(d, a) == QOp2(QSqrR, d, a)
QInv(d, a) == QOp2(QInvR, d, a)
QToM(d, a) == QOp2(QToMR, d, a)
QFromM(d, a) == QOp2(QFromMR, d, a)
QSwap(a, b, g, h, c) ==     \* (a, g) with (b, h)
  /\ fp' = (IF c = 1 THEN [fp EXCEPT ![2*a] = fp[2*b], ![2*a+1] = fp[2*b+1], ![2*b] = fp[2*a], ![2*b+1] = fp[2*a+1],
                                     ![2*g] = fp[2*h], ![2*g+1] = fp[2*h+1], ![2*h] = fp[2*g], ![2*h+1] = fp[2*g+1]]
            ELSE fp)
  /\ UNCHANGED << fld, xx >> /\ res' = << >>

(* the field of CSIDH *)
CAdd(d, a, b) == Op3(CAddR, d, a, b)
CSub(d, a, b) == Op3(CSubR, d, a, b)
CMul(d, a, b) == Op3(CMulR, d, a, b)
CPow(d, a, b) == Op3(CPowR, d, a, b)
CPow64(d, a, es) == /\ OnlyF(d) /\ Same(fp'[d], fp[a]) /\ res' = << >>
                    /\ \A i \in 1..Len(fp[a]) : CPowR(fld, fp'[d][i], fp[a][i], es[i])
CWSub(d, a, b) ==   \* the borrow is returned
  /\ OnlyF(d) /\ Same(fp'[d], fp[a])
  /\ \A i \in 1..Len(fp[a]) : WSub(fld, fp'[d][i], fp[a][i], fp[b][i])
  /\ res' = [i \in 1..Len(fp[a]) |-> IF BnLess(fp[a][i], fp[b][i]) THEN 1 ELSE 0]
CWMul(d, a, ms) ==
  /\ OnlyF(d) /\ Same(fp'[d], fp[a]) /\ res' = << >>
  /\ \A i \in 1..Len(fp[a]) : WMul(fld, fp'[d][i], fp[a][i], ms[i])
CWMulFull(d, a, ms) ==
  /\ OnlyX(d) /\ Same(xx'[d], fp[a]) /\ res' = << >>
  /\ \A i \in 1..Len(fp[a]) : WMulFull(xx'[d][i], fp[a][i], ms[i])
Flag(b) == IF b THEN 1 ELSE 0
CLess(a, b) == UNCHANGED << fld, fp, xx >> /\ res' = [i \in 1..Len(fp[a]) |-> Flag(BnLess(fp[a][i], fp[b][i]))]
CEqual(a, b) == UNCHANGED << fld, fp, xx >> /\ res' = [i \in 1..Len(fp[a]) |-> Flag(fp[a][i] = fp[b][i])]
CIsZero(a) == UNCHANGED << fld, fp, xx >> /\ res' = [i \in 1..Len(fp[a]) |-> Flag(fp[a][i] = BnInt(0))]
CNonQR(a) ==   \* zero may count as either
  /\ UNCHANGED << fld, fp, xx >> /\ Same(res', fp[a])
  /\ \A i \in 1..Len(fp[a]) : fp[a][i] # BnInt(0) => res'[i] = Flag(CNonRes(fld, fp[a][i]))
=============================================================================
