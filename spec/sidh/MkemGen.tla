-------------------------------- MODULE MkemGen --------------------------------
(* Histories over multi-recipient KEM objects and SIKE keys (see SidhGen). *)
EXTENDS SidhGen
CONSTANTS Mkos, Recips
VARIABLES mks,
          parts,   \* part name -> << field, public key object >>
          pair     \* << private, public >> key objects that belong together
mgvars == << gvars, mks, parts, pair >>

GmEnc(f, qs, m) == [ct0 |-> Tok(6 * FpB(f), "ct0"), cts |-> qs, ss |-> 0]
GmDec(f, s, sk, pk, ct0, c) == 0
GmZero(f) == Tok(6 * FpB(f), "zero")
K == INSTANCE MkemObj WITH MEncFn <- GmEnc, MDecFn <- GmDec, MMsgLen <- MsgLen, MZero <- GmZero

MissingM == Mkos \ DOMAIN mks
Ready == Missing = {} /\ MissingM = {}
MKeep == UNCHANGED << kems, cts, parts >>
GMMake ==
  LET o == CHOOSE x \in MissingM : TRUE IN
  \E f \in FieldsNow, n \in Recips, b \in (IF Has({"mbad"}) THEN BOOLEAN ELSE {FALSE}) :
    /\ K!NewMk(o, ~ b, f, n) /\ MKeep
    /\ Log([op |-> "m.new", o |-> o, f |-> f, n |-> n, bare |-> b])
GMAlloc(o) == \E f \in FieldsNow, n \in Recips : K!MAllocate(o, f, n) /\ MKeep /\ Log([op |-> "m.alloc", o |-> o, f |-> f, n |-> n])
GMReset(o) == mks[o].alloc /\ K!MReset(o) /\ MKeep /\ Log([op |-> "m.reset", o |-> o])
GMSizes(o) == mks[o].alloc /\ UNCHANGED << keys, reply, mks >> /\ MKeep /\ Log([op |-> "m.sizes", o |-> o])
PName(i) == "p" \o ToString(Cardinality(DOMAIN parts) + i)
OkPub(o, q) == keys[q].v = "S" /\ IsPub(q) /\ keys[q].f = mks[o].f
GMEnc(o) == \E n \in 0..mks[o].n : \E qs \in [1..n -> {q \in Pubs : OkPub(o, q)}], x \in {0, 4}, c \in {0, 3} :
  LET nm == [i \in 1..n |-> PName(i)] IN
  /\ mks[o].alloc /\ (n = 0 => c = 3)
  /\ K!MEncaps(o, qs, Tok(MsgLen(mks[o].f), "m"), MsgLen(mks[o].f) + x)
  /\ parts' = [i \in { PName(j) : j \in 1..n } |-> LET k == CHOOSE j \in 1..n : PName(j) = i IN << mks[o].f, qs[k] >>] @@ parts
  /\ UNCHANGED << kems, cts >>
  /\ Log([op |-> "m.enc", o |-> o, pubs |-> qs, cs |-> nm, ssx |-> x, chunk |-> c, rnglen |-> MsgLen(mks[o].f)])
GMEncFail(o) == \E q \in Pubs, n \in {0, 1, MsgLen(mks[o].f) - 1}, c \in {0, 2} :
  /\ mks[o].alloc /\ OkPub(o, q)
  /\ K!MEncaps(o, << q >>, Tok(n, "m"), MsgLen(mks[o].f)) /\ MKeep
  /\ Log([op |-> "m.enc", o |-> o, pubs |-> << q >>, cs |-> << "none" >>, ssx |-> 0, chunk |-> c, rnglen |-> n])
(* unallocated, short buffer, wrong kind of public key first or last in the list *)
GMEncBad(o) == \E n \in 0..mks[o].n : \E qs \in [1..n -> {q \in Pubs : keys[q].f = mks[o].f}], x \in {0, -1, -1000} :
  LET sl == IF x = -1000 THEN 0 ELSE MsgLen(mks[o].f) + x IN
  /\ \A i \in DOMAIN qs : keys[qs[i]].v = "S" => IsPub(qs[i])
  /\ K!MEncRefusedEarly(o, sl) \/ K!MEncWrongKey(o, qs)
  /\ K!MEncaps(o, qs, Tok(MsgLen(mks[o].f), "m"), sl) /\ MKeep
  /\ Log([op |-> "m.enc", o |-> o, pubs |-> qs, cs |-> [i \in DOMAIN qs |-> "none"], ssx |-> sl - MsgLen(mks[o].f), chunk |-> 0,
          rnglen |-> MsgLen(mks[o].f), bad |-> TRUE])
GMTamper(o) == \E c \in {"c0bit", "c0first", "c0last", "addp", "undo"} :
  /\ mks[o].alloc /\ mks[o].ct0 # GUnknown
  /\ K!MTamper(o, mks[o].ct0) /\ MKeep
  /\ Log([op |-> "m.tamper", o |-> o, cls |-> c, f |-> mks[o].f])
MDecWith(o, p, q, c, cls, x) ==
  /\ mks[o].alloc /\ mks[o].ct0 # GUnknown
  /\ keys[p].kind = "prv" /\ keys[p].v = "S" /\ Known(p) /\ keys[p].f = mks[o].f /\ OkPub(o, q)
  /\ parts[c][1] = mks[o].f
  /\ K!MDecaps(o, p, q, Tok(MsgLen(mks[o].f), "part"), MsgLen(mks[o].f) + x) /\ MKeep
  /\ Log([op |-> "m.dec", o |-> o, prv |-> p, pub |-> q, c |-> c, cls |-> cls, ssx |-> x, f |-> mks[o].f])
GMDecOwn(o) == \E c \in DOMAIN parts, x \in {0, 7} : \E p \in Prvs :
  << p, parts[c][2] >> \in pair /\ MDecWith(o, p, parts[c][2], c, "same", x)
GMDec(o) == \E p \in Prvs, q \in Pubs, c \in DOMAIN parts : MDecWith(o, p, q, c, "same", 0)
GMDecMut(o) == \E p \in Prvs, c \in DOMAIN parts, m \in MutPos : << p, parts[c][2] >> \in pair /\ MDecWith(o, p, parts[c][2], c, m, 0)
GMDecBad(o) == \E p \in Prvs, q \in Pubs, d \in {0, -1, 1, -1000}, x \in {0, -1, -1000} :
  LET f == mks[o].f  sl == IF x = -1000 THEN 0 ELSE MsgLen(f) + x  cl == IF d = -1000 THEN 0 ELSE MsgLen(f) + d IN
  /\ keys[p].f = f /\ keys[q].f = f /\ Known(p)
  /\ keys[q].v = "S" => IsPub(q)
  /\ ~ K!MDecFits(o, p, q, Tok(cl, "part"), sl)
  /\ K!MDecaps(o, p, q, Tok(cl, "part"), sl) /\ MKeep
  /\ Log([op |-> "m.dec", o |-> o, prv |-> p, pub |-> q, ctlen |-> cl, ssx |-> sl - MsgLen(f), bad |-> TRUE])

(* which keys belong together after the logged operation *)
PairAfter(e) ==
  CASE e.op \in {"k.imp", "k.gen", "k.move", "k.prv", "k.pub"} -> { x \in pair : x[1] # e.o /\ x[2] # e.o }
    [] e.op = "k.pubgen" -> IF K!PubGenFits(e.prv, e.pub) THEN { x \in pair : x[2] # e.pub } \cup { << e.prv, e.pub >> } ELSE pair
    [] OTHER -> pair
MNext ==
  \/ /\ (Missing # {} \/ Ready)
     /\ Next /\ UNCHANGED << mks, parts >> /\ pair' = PairAfter(hist'[Len(hist')])
  \/ Missing = {} /\ MissingM # {} /\ GMMake /\ UNCHANGED pair
  \/ Ready /\ Has({"malloc"}) /\ (\E o \in Mkos : GMAlloc(o)) /\ UNCHANGED pair
  \/ Ready /\ Has({"mreset"}) /\ (\E o \in Mkos : GMReset(o)) /\ UNCHANGED pair
  \/ Ready /\ Has({"msizes"}) /\ (\E o \in Mkos : GMSizes(o)) /\ UNCHANGED pair
  \/ Ready /\ Has({"menc"}) /\ (\E o \in Mkos : GMEnc(o)) /\ UNCHANGED pair
  \/ Ready /\ Has({"mencfail"}) /\ (\E o \in Mkos : GMEncFail(o)) /\ UNCHANGED pair
  \/ Ready /\ Has({"mbad"}) /\ (\E o \in Mkos : GMEncBad(o)) /\ UNCHANGED pair
  \/ Ready /\ Has({"mtamper"}) /\ (\E o \in Mkos : GMTamper(o)) /\ UNCHANGED pair
  \/ Ready /\ Has({"mdec"}) /\ (\E o \in Mkos : GMDecOwn(o)) /\ UNCHANGED pair
  \/ Ready /\ Has({"mdec2"}) /\ (\E o \in Mkos : GMDec(o)) /\ UNCHANGED pair
  \/ Ready /\ Has({"mmut"}) /\ (\E o \in Mkos : GMDecMut(o)) /\ UNCHANGED pair
  \/ Ready /\ Has({"mbad"}) /\ (\E o \in Mkos : GMDecBad(o)) /\ UNCHANGED pair
MSpec == Init /\ mks = << >> /\ parts = << >> /\ pair = {} /\ [][MNext]_mgvars
=============================================================================
