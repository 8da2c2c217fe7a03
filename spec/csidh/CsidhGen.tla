-------------------------------- MODULE CsidhGen --------------------------------
(* Histories over CSIDH keys.  Values are tokens [n, t]; t says what is known: "blank", "set"
   (arbitrary bytes), "gen" (exponents), "act" (a curve reached from a valid one). *)
EXTENDS CsidhObj, GenKit, FiniteSets, Integers
CONSTANTS Prvs, Pubs, Ops, PubClasses, PrvClasses
gvars == << keys, reply, hist >>
Tok(n, t) == [n |-> n, t |-> t]
GLen(x) == x.n
GCut(x, i, j) == [x EXCEPT !.n = j - i]
GBlank(n) == Tok(n, "blank")
GAct(q, p) == Tok(64, "act")
GValid(q) == TRUE
GUnknown == Tok(0, "unknown")
GGenFn(x) == IF x.t = "gen" THEN << Tok(37, "gen"), "whole" >> ELSE << GUnknown, "short" >>
Init == CInit /\ hist = << >>
Missing == (Prvs \cup Pubs) \ DOMAIN keys
Known(o) == keys[o].val.n # 0
Is(o, kind) == keys[o].kind = kind
Has(o) == Ops \cap o # {}
Chunks == {0, 0, 1, 7, 63, 64}

GMake == LET o == CHOOSE x \in Missing : TRUE IN
  \/ o \in Prvs /\ NewKey(o, "prv") /\ Log([op |-> "s.prv", o |-> o])
  \/ o \in Pubs /\ NewKey(o, "pub") /\ Log([op |-> "s.pub", o |-> o])
GImp(o) == \E c \in (IF Is(o, "prv") THEN PrvClasses ELSE PubClasses), x \in (IF Is(o, "prv") THEN {0, 0, 1, 27, 200} ELSE {0}) :
  LET n == (IF Is(o, "prv") THEN 37 ELSE 64) + x IN
  Import(o, Tok(n, c)) /\ Log([op |-> "s.imp", o |-> o, len |-> n, cls |-> c, kind |-> keys[o].kind])
GImpBad(o) == \E n \in (IF Is(o, "prv") THEN {0, 1, 36} ELSE {0, 1, 37, 63, 65, 128}) :
  Import(o, Tok(n, "set")) /\ Log([op |-> "s.imp", o |-> o, len |-> n, cls |-> "bad", kind |-> keys[o].kind])
GMove(o) == \E q \in DOMAIN keys \ {o} :
  /\ keys[q].kind = keys[o].kind /\ Known(q)
  /\ Import(o, keys[q].val) /\ Log([op |-> "s.move", o |-> o, from |-> q])
GExp(o) == \E n \in (IF Is(o, "prv") THEN {37, 37, 38, 100} ELSE {64}) :
  Known(o) /\ Export(o, n) /\ Log([op |-> "s.exp", o |-> o, n |-> n])
GExpBad(o) == \E n \in (IF Is(o, "prv") THEN {0, 1, 36} ELSE {0, 1, 37, 63, 65, 128}) :
  Known(o) /\ Export(o, n) /\ Log([op |-> "s.exp", o |-> o, n |-> n])
GGen(o) == \E c \in {"rand", "dense", "sparse", "edges", "exact"}, ch \in {0, 0, 1, 7, 63} :
  /\ Is(o, "prv")
  /\ Generate(o, Tok(64, "gen")) /\ Log([op |-> "s.gen", o |-> o, cls |-> c, chunk |-> ch])
GGenBad(o) == \E c \in {"none", "short0", "short1", "short73", "part", "nogood"}, ch \in {0, 5} :
  /\ Is(o, "prv")
  /\ Generate(o, Tok(64, "short")) /\ Log([op |-> "s.gen", o |-> o, cls |-> c, chunk |-> ch])
GPubGen(p) == \E q \in Pubs, ch \in Chunks :
  /\ Is(p, "prv") /\ Known(p)
  /\ PublicKey(p, q) /\ Log([op |-> "s.pubgen", prv |-> p, pub |-> q, chunk |-> ch])
GVal(q) == Is(q, "pub") /\ Validate(q) /\ \E ch \in Chunks : Log([op |-> "s.val", pub |-> q, chunk |-> ch])
GDerive(p) == \E q \in Pubs, ch \in Chunks :
  /\ Is(p, "prv") /\ Known(p)
  /\ Derive(p, q) /\ Log([op |-> "s.derive", prv |-> p, pub |-> q, chunk |-> ch])

Full == Missing = {}
Next == \/ Missing # {} /\ GMake
        \/ Full /\ Has({"imp"}) /\ \E o \in DOMAIN keys : GImp(o)
        \/ Full /\ Has({"impbad"}) /\ \E o \in DOMAIN keys : GImpBad(o)
        \/ Full /\ Has({"move"}) /\ \E o \in DOMAIN keys : GMove(o)
        \/ Full /\ Has({"exp"}) /\ \E o \in DOMAIN keys : GExp(o)
        \/ Full /\ Has({"expbad"}) /\ \E o \in DOMAIN keys : GExpBad(o)
        \/ Full /\ Has({"gen"}) /\ \E o \in DOMAIN keys : GGen(o)
        \/ Full /\ Has({"genbad"}) /\ \E o \in DOMAIN keys : GGenBad(o)
        \/ Full /\ Has({"pubgen"}) /\ \E p \in DOMAIN keys : GPubGen(p)
        \/ Full /\ Has({"val"}) /\ \E q \in DOMAIN keys : GVal(q)
        \/ Full /\ Has({"derive"}) /\ \E p \in DOMAIN keys : GDerive(p)
Spec == Init /\ [][Next]_gvars
Shape == keys
=============================================================================
