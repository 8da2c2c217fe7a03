-------------------------------- MODULE FieldGen --------------------------------
(* Programs of the field machine, known by the bounds of its registers: fb[r] = 0 undefined,
   1 below p, 2 below 2p, 3 any number of full width; xb[x] = 0 undefined, k: below 4 k p^2,
   99: below p R.  "one": every instruction with every aliasing of its operands and every
   relation between their values; "prog": longer programs. *)
EXTENDS GenKit, FiniteSets
CONSTANTS Mode, Kind, Ops
VARIABLES fb, xb
gvars == << fb, xb, hist >>
FR == 0..7
QR == 0..3
XR == 0..2
Rels == {"ind", "eq", "sum", "diff", "prod"}
Has(o) == o \in Ops
Init == fb = [r \in FR |-> 0] /\ xb = [x \in XR |-> 0] /\ hist = << >>

(* ---- single instructions ---- *)
Pat3 == {<< 0, 1, 2 >>, << 0, 0, 2 >>, << 0, 1, 0 >>, << 0, 1, 1 >>, << 0, 0, 0 >>}
Pat2 == {<< 0, 1 >>, << 0, 0 >>}
Ld(r, cap) == << [op |-> "f.load", d |-> r, cap |-> cap] >>
Pair(a, b, rel, cap) == IF a = b THEN Ld(a, cap) ELSE << [op |-> "f.pair", a |-> a, b |-> b, rel |-> rel, cap |-> cap] >>
QPair(a, b, rel, cap) ==    \* "within": parts of one element; "across": same part of the two; "cross": a.A with b.B
  IF a = b THEN (IF rel \in {"sum", "diff", "eq", "prod"} THEN Pair(2*a, 2*a+1, rel, cap) ELSE Ld(2*a, cap) \o Ld(2*a+1, cap))
  ELSE CASE rel = "ind" -> Ld(2*a, cap) \o Ld(2*a+1, cap) \o Ld(2*b, cap) \o Ld(2*b+1, cap)
         [] rel \in {"sum", "diff"} -> Pair(2*a, 2*a+1, rel, cap) \o Pair(2*b, 2*b+1, rel, cap)
         [] rel = "eq" -> Pair(2*a, 2*b, "eq", cap) \o Pair(2*a+1, 2*b+1, "diff", cap)
         [] rel = "prod" -> Pair(2*a, 2*b, "prod", cap) \o Pair(2*a+1, 2*b+1, "prod", cap)
Emit(s) == hist' = s /\ UNCHANGED << fb, xb >>
I3(o, d, a, b) == [op |-> "f." \o o, d |-> d, a |-> a, b |-> b]
I2(o, d, a) == [op |-> "f." \o o, d |-> d, a |-> a]
OSidh3 == \E o \in {"add", "sub", "mulP"} \cap Ops, p \in Pat3, rel \in Rels :
            Emit(Append(Pair(p[2], p[3], rel, "2p"), I3(o, p[1], p[2], p[3])))
OMul == Has("mul") /\ \E p \in {<< 1, 2 >>, << 1, 1 >>}, rel \in Rels : Emit(Append(Pair(p[1], p[2], rel, "2p"), I3("mul", 0, p[1], p[2])))
OMod == Has("mod") /\ Emit(Ld(0, "2p") \o << I2("mod", 0, 0) >>)
OP34 == Has("p34") /\ \E p \in Pat2 : Emit(Ld(p[2], "2p") \o << I2("p34", p[1], p[2]) >>)
OSwap == Has("cswap") /\ \E c \in {0, 1} : Emit(Pair(0, 1, "ind", "all") \o << [op |-> "f.cswap", a |-> 0, b |-> 1, c |-> c] >>)
XPair(a, b, rel) == << [op |-> "x.pair", a |-> a, b |-> b, rel |-> rel] >>
OAdl == Has("adl") /\ \E p \in {<< 0, 1, 2 >>, << 0, 0, 2 >>}, rel \in Rels : Emit(Append(XPair(p[2], p[3], rel), I3("adl", p[1], p[2], p[3])))
OSul == Has("sul") /\ \E rel \in Rels : Emit(Append(XPair(1, 2, rel), I3("sul", 0, 1, 2)))
ORdc == Has("rdc") /\ \E cls \in {"limbs", "near", "quot", "mid"} : Emit(<< [op |-> "x.load", d |-> 0, cls |-> cls], I2("rdc", 0, 0) >>)
OQ3 == \E o \in {"qadd", "qsub", "qmul"} \cap Ops, p \in Pat3, rel \in Rels :
            Emit(Append(QPair(p[2], p[3], rel, "2p"), I3(o, p[1], p[2], p[3])))
OQ2 == \E o \in {"qsqr", "qinv"} \cap Ops, p \in Pat2, rel \in Rels : Emit(Append(QPair(p[2], p[2], rel, "2p"), I2(o, p[1], p[2])))
OQM == \E o \in {"qtom", "qfromm"} \cap Ops, cap \in {"p", "2p"} : Emit(Append(QPair(1, 1, "ind", cap), I2(o, 0, 1)))
OQSwap == Has("qswap") /\ \E c \in {0, 1} :
  Emit(QPair(0, 1, "ind", "all") \o QPair(2, 3, "ind", "all") \o << [op |-> "f.qswap", a |-> 0, b |-> 1, g |-> 2, h |-> 3, c |-> c] >>)
(* CSIDH *)
OC3 == \E o \in {"cadd", "csub", "cmul"} \cap Ops, p \in Pat3, rel \in Rels :
            Emit(Append(Pair(p[2], p[3], rel, "p"), I3(o, p[1], p[2], p[3])))
OCPow == Has("cpow") /\ \E p \in {<< 0, 1, 2 >>, << 0, 0, 2 >>} : Emit(Ld(p[2], "p") \o Ld(p[3], "all") \o << I3("cpow", p[1], p[2], p[3]) >>)
OCPow64 == Has("cpow64") /\ \E p \in Pat2 : Emit(Ld(p[2], "p") \o << I2("cpow64", p[1], p[2]) >>)
OCW == \E o \in {"wmul", "wmulfull"} \cap Ops, p \in Pat2, cap \in {"all", "p"} :
          Emit(Ld(p[2], cap) \o << I2(o, IF o = "wmulfull" THEN 0 ELSE p[1], p[2]) >>)
OCSub == Has("wsub") /\ \E p \in Pat3, rel \in Rels : Emit(Append(Pair(p[2], p[3], rel, "all"), I3("wsub", p[1], p[2], p[3])))
OCCmp == \E o \in {"less", "equal"} \cap Ops, rel \in Rels : Emit(Append(Pair(0, 1, rel, "all"), I3(o, 0, 0, 1)))
OCUn == \E o \in {"iszero", "nonqr"} \cap Ops : Emit(Append(Ld(0, IF o = "nonqr" THEN "p" ELSE "all"), I2(o, 0, 0)))
One == \/ OSidh3 \/ OMul \/ OMod \/ OP34 \/ OSwap \/ OAdl \/ OSul \/ ORdc \/ OQ3 \/ OQ2 \/ OQM \/ OQSwap
       \/ OC3 \/ OCPow \/ OCPow64 \/ OCW \/ OCSub \/ OCCmp \/ OCUn

(* ---- programs ---- *)
SetF(r, k) == fb' = [fb EXCEPT ![r] = k]
Dq(j) == fb[2*j] \in 1..2 /\ fb[2*j+1] \in 1..2
SetQ(d) == fb' = [fb EXCEPT ![2*d] = 2, ![2*d+1] = 2] /\ UNCHANGED xb
D2 == {r \in FR : fb[r] \in 1..2}
D1 == {r \in FR : fb[r] = 1}
Q2 == {j \in QR : Dq(j)}
PLoad == \E r \in FR, s \in FR, rel \in Rels :
  /\ r # s /\ Log([op |-> "f.pair", a |-> r, b |-> s, rel |-> rel, cap |-> IF Kind = "sidh" THEN "2p" ELSE "p"])
  /\ fb' = [fb EXCEPT ![r] = IF Kind = "sidh" THEN 2 ELSE 1, ![s] = IF Kind = "sidh" THEN 2 ELSE 1] /\ UNCHANGED xb
P3 == \E o \in {"add", "sub", "mulP"} \cap Ops, d \in FR, a, b \in D2 : SetF(d, 2) /\ UNCHANGED xb /\ Log(I3(o, d, a, b))
PMod == Has("mod") /\ \E d \in D2 : SetF(d, 1) /\ UNCHANGED xb /\ Log(I2("mod", d, d))
PP34 == Has("p34") /\ \E d \in FR, a \in D2 : SetF(d, 2) /\ UNCHANGED xb /\ Log(I2("p34", d, a))
PMul == Has("mul") /\ \E x \in XR, a, b \in D2 : xb' = [xb EXCEPT ![x] = 1] /\ UNCHANGED fb /\ Log(I3("mul", x, a, b))
PAdl == Has("adl") /\ \E x, y, z \in XR : xb[x] \in 1..7 /\ xb[y] \in 1..7 /\ z # y
          /\ xb' = [xb EXCEPT ![z] = xb[x] + xb[y]] /\ UNCHANGED fb /\ Log(I3("adl", z, x, y))
PSul == Has("sul") /\ \E x, y, z \in XR : xb[x] # 0 /\ xb[y] # 0 /\ z # y /\ z # x
          /\ xb' = [xb EXCEPT ![z] = 99] /\ UNCHANGED fb /\ Log(I3("sul", z, x, y))
PRdc == Has("rdc") /\ \E x \in XR, d \in FR : xb[x] # 0 /\ xb' = [xb EXCEPT ![x] = 0] /\ SetF(d, 2) /\ Log(I2("rdc", d, x))
PQ3 == \E o \in {"qadd", "qsub", "qmul"} \cap Ops, d \in QR, a, b \in Q2 : SetQ(d) /\ Log(I3(o, d, a, b))
PQ2 == \E o \in {"qsqr", "qtom"} \cap Ops, d \in QR, a \in Q2 : (o = "qtom" => d # a) /\ SetQ(d) /\ Log(I2(o, d, a))
PQInv == Has("qinv") /\ \E d \in QR, a \in Q2 : SetQ(d) /\ Log(I2("qinv", d, a))
PQFrom == Has("qfromm") /\ \E d \in QR, a \in Q2 : d # a /\ fb' = [fb EXCEPT ![2*d] = 1, ![2*d+1] = 1] /\ UNCHANGED xb /\ Log(I2("qfromm", d, a))
PQSwap == Has("qswap") /\ \E c \in {0, 1} :
  /\ \A j \in QR : Dq(j)
  /\ UNCHANGED << fb, xb >> /\ Log([op |-> "f.qswap", a |-> 0, b |-> 1, g |-> 2, h |-> 3, c |-> c])
PC3 == \E o \in {"cadd", "csub", "cmul"} \cap Ops, d \in FR, a, b \in D1 : SetF(d, 1) /\ UNCHANGED xb /\ Log(I3(o, d, a, b))
PCPow == Has("cpow") /\ \E d \in FR, a \in D1, b \in D1 : a # d /\ b # d /\ SetF(d, 1) /\ UNCHANGED xb /\ Log(I3("cpow", d, a, b))
PCUn == Has("nonqr") /\ \E a \in D1 : UNCHANGED << fb, xb >> /\ Log(I2("nonqr", a, a))
PCCmp == \E o \in {"less", "equal"} \cap Ops, a, b \in D1 : a # b /\ UNCHANGED << fb, xb >> /\ Log(I3(o, a, a, b))
Prog == \/ PLoad \/ P3 \/ PMod \/ PP34 \/ PMul \/ PAdl \/ PSul \/ PRdc \/ PQ3 \/ PQ2 \/ PQInv \/ PQFrom \/ PQSwap
        \/ PC3 \/ PCPow \/ PCUn \/ PCCmp
NextOne == hist = << >> /\ One
NextProg == Prog
SpecOne == Init /\ [][NextOne]_gvars
SpecProg == Init /\ [][NextProg]_gvars
=============================================================================
