------------------------------- MODULE FieldTrace -------------------------------
(* Validation of traces of the field routines against FieldObj.  Every instruction was applied
   to all lanes of its registers; the trace has what the registers named in it contained
   afterwards (outs: width-w numbers, little-endian), and that nothing else changed (frame). *)
EXTENDS FieldObj, TraceKit
tvars == << fvars, l >>
At == l
CS == INSTANCE CsidhFn
Three(n) == FoldLeft(LAMBDA a, i : BnMul(a, BnInt(3)), BnInt(1), [i \in 1..n |-> i])
SidhPrime(e2, e3) == BnSub(BnMul(BnPow2(e2), Three(e3)), BnInt(1))
FieldOf(n) ==
  CASE n = "p434" -> MkField(SidhPrime(216, 137), BnPow2(448))
    [] n = "p503" -> MkField(SidhPrime(250, 159), BnPow2(512))
    [] n = "p751" -> MkField(SidhPrime(372, 239), BnPow2(768))
    [] n = "p511" -> MkField(CS!CP, BnPow2(512))
W == BnBitLen(fld.lim) \div 8
Vec(b, w) == BnVec(b, w)
Upd(f, outs, w) == [r \in DOMAIN f |-> IF \E i \in 1..Len(outs) : outs[i][1] = r
                                       THEN BnVec(outs[CHOOSE i \in 1..Len(outs) : outs[i][1] = r][2], w) ELSE f[r]]
After(e, xw) == fp' = Upd(fp, e.outs, W) /\ xx' = Upd(xx, e.xouts, xw) /\ res' = e.res /\ UNCHANGED fld
Gone(e) == fp' = Upd(fp, e.outs, W) /\ xx' = [xx EXCEPT ![e.a] = Und] /\ res' = e.res /\ UNCHANGED fld
Act(e) ==
  CASE e.op = "f.add" -> Add(e.d, e.a, e.b)
    [] e.op = "f.sub" -> Sub(e.d, e.a, e.b)
    [] e.op = "f.mulP" -> MulP(e.d, e.a, e.b)
    [] e.op = "f.mod" -> Mod(e.d)
    [] e.op = "f.p34" -> P34(e.d, e.a)
    [] e.op = "f.cswap" -> Swap(e.a, e.b, e.c)
    [] e.op = "f.mul" -> Mul(e.d, e.a, e.b)
    [] e.op = "f.adl" -> Adl(e.d, e.a, e.b)
    [] e.op = "f.sul" -> Sul(e.d, e.a, e.b)
    [] e.op = "f.rdc" -> Rdc(e.d, e.a)
    [] e.op = "f.qadd" -> QAdd(e.d, e.a, e.b)
    [] e.op = "f.qsub" -> QSub(e.d, e.a, e.b)
    [] e.op = "f.qmul" -> QMul(e.d, e.a, e.b)
    [] e.op = "f.qsqr" -> QSqr(e.d, e.a)
    [] e.op = "f.qinv" -> QInv(e.d, e.a)
    [] e.op = "f.qtom" -> QToM(e.d, e.a)
    [] e.op = "f.qfromm" -> QFromM(e.d, e.a)
    [] e.op = "f.qswap" -> QSwap(e.a, e.b, e.g, e.h, e.c)
    [] e.op = "f.cadd" -> CAdd(e.d, e.a, e.b)
    [] e.op = "f.csub" -> CSub(e.d, e.a, e.b)
    [] e.op = "f.cmul" -> CMul(e.d, e.a, e.b)
    [] e.op = "f.cpow" -> CPow(e.d, e.a, e.b)
    [] e.op = "f.cpow64" -> CPow64(e.d, e.a, Vec(e.ms, 8))
    [] e.op = "f.wsub" -> CWSub(e.d, e.a, e.b)
    [] e.op = "f.wmul" -> CWMul(e.d, e.a, Vec(e.ms, 8))
    [] e.op = "f.wmulfull" -> CWMulFull(e.d, e.a, Vec(e.ms, 8))
    [] e.op = "f.less" -> CLess(e.a, e.b)
    [] e.op = "f.equal" -> CEqual(e.a, e.b)
    [] e.op = "f.iszero" -> CIsZero(e.a)
    [] e.op = "f.nonqr" -> CNonQR(e.a)
Regs == 0..7
Step(e) ==
  CASE e.op = "begin" -> fld' = << >> /\ fp' = << >> /\ xx' = << >> /\ res' = << >>
    [] e.op = "f.new" -> fld' = FieldOf(e.field) /\ fp' = [r \in Regs |-> Und] /\ xx' = [r \in Regs |-> Und] /\ res' = << >>
    [] e.op \in {"f.load", "x.load"} -> After(e, 2 * W)
    [] e.op = "absent" -> UNCHANGED fvars      \* the routine does not exist under this name
    [] e.op = "f.wmulfull" -> After(e, W + 8) /\ Chk("result", Act(e), TRUE)
    [] e.op = "f.rdc" -> Gone(e) /\ Chk("result", Act(e), TRUE)
    [] OTHER -> After(e, 2 * W) /\ Chk("result", Act(e), TRUE)
Init == fld = << >> /\ fp = << >> /\ xx = << >> /\ res = << >> /\ l = 1
Next == Consume /\ NoPanic /\ Step(Ev)
Spec == Init /\ [][Next]_tvars
=============================================================================
