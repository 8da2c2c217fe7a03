-------------------------------- MODULE SidhGen --------------------------------
(* Histories over SIDH/SIKE keys and KEM objects.  Values are tokens [n, t]: a length and
   what is known about the value; they are filled in later.  A script starts with its
   objects, whose fields and variants are chosen in the initial state. *)
EXTENDS KemObj, GenKit, FiniteSets, Integers
CONSTANTS Prvs, Pubs, Kems, Fields, PrvVars, PubVars, OneField, Mks, Ops, MutPos
VARIABLE cts         \* ciphertext name -> << field, public key object it was made for >>
gvars == << keys, reply, kems, cts, hist >>

MsgLen(f) == CASE f = "p434" -> 16 [] f = "p503" -> 24 [] f = "p751" -> 32
FpB(f) == CASE f = "p434" -> 55 [] f = "p503" -> 63 [] f = "p751" -> 94
GSLen(f, v) == IF v = "S" THEN MsgLen(f) ELSE 0
GValLen(f, v, kind) == IF kind = "pub" THEN 6 * FpB(f)
                       ELSE CASE f = "p434" -> 28 [] f = "p503" -> 32 [] OTHER -> IF v = "A" THEN 47 ELSE 48
GSec(f) == 2 * FpB(f)
GCt(f) == 6 * FpB(f) + MsgLen(f)
Tok(n, t) == [n |-> n, t |-> t]
GLenOf(x) == x.n
GCut(x, i, j) == [x EXCEPT !.n = j - i]
GZeros(n) == Tok(n, "zero")
GJoin(s, v) == v
GClamp(f, v, b) == [b EXCEPT !.t = "gen"]
GPub(f, side, k) == Tok(6 * FpB(f), "pub")
GShared(f, side, k, pk) == 0
GEncaps(f, pk, m) == [ct |-> 0, ss |-> 0]
GDecaps(f, s, sk, pk, ct) == 0

Mk(kind, f, v) == [kind |-> kind, f |-> f, v |-> v, s |-> GZeros(GSLen(f, IF kind = "prv" THEN v ELSE "A")),
                   val |-> GZeros(GValLen(f, v, kind))]
GUnknown == Tok(0, "unknown")
Init == keys = << >> /\ kems = << >> /\ cts = << >> /\ reply = [call |-> "none"] /\ hist = << >>

(* first the objects are made, in a fixed order *)
Missing == (Prvs \ DOMAIN keys) \cup (Pubs \ DOMAIN keys) \cup (Kems \ DOMAIN kems)
FieldsNow == IF OneField /\ hist # << >> THEN {hist[1].f} ELSE Fields
GMake ==
  LET o == CHOOSE x \in Missing : TRUE IN
  \E f \in FieldsNow :
    CASE o \in Prvs -> \E v \in PrvVars :
           /\ keys' = (o :> Mk("prv", f, v)) @@ keys /\ UNCHANGED << kems, cts, reply >>
           /\ Log([op |-> "k.prv", o |-> o, f |-> f, v |-> v])
      [] o \in Pubs -> \E v \in PubVars :
           /\ keys' = (o :> Mk("pub", f, v)) @@ keys /\ UNCHANGED << kems, cts, reply >>
           /\ Log([op |-> "k.pub", o |-> o, f |-> f, v |-> v])
      [] o \in Kems -> \E mk \in Mks :
           /\ NewKem(o, mk \notin {"sidh0", "mkem0"}, f) /\ UNCHANGED cts
           /\ Log([op |-> "e.new", o |-> o, f |-> f, mk |-> mk])

Has(o) == Ops \cap o # {}
Known(o) == keys[o].val # Unknown
IsPub(o) == Known(o) /\ keys[o].val.t = "pub"
KEEPK == UNCHANGED << kems, cts >>

GImp(o) == \E c \in {"rand", "rand", "edge"} :
  /\ Import(o, Tok(KeyLen(keys[o]), "set")) /\ KEEPK
  /\ Log([op |-> "k.imp", o |-> o, len |-> KeyLen(keys[o]), cls |-> c, kind |-> keys[o].kind, f |-> keys[o].f, v |-> keys[o].v])
GImpBad(o) == \E n \in {0, 1, KeyLen(keys[o]) - 1, KeyLen(keys[o]) + 1, KeyLen(keys[o]) - MsgLen(keys[o].f),
                        KeyLen(keys[o]) + MsgLen(keys[o].f), 2 * KeyLen(keys[o])} :
  /\ n # KeyLen(keys[o])
  /\ Import(o, Tok(n, "set")) /\ KEEPK
  /\ Log([op |-> "k.imp", o |-> o, len |-> n, cls |-> "bad", kind |-> keys[o].kind, f |-> keys[o].f, v |-> keys[o].v])
GMove(o) == \E p \in DOMAIN keys \ {o} :
  /\ keys[p].kind = keys[o].kind /\ Known(p) /\ keys[p].f = keys[o].f
  /\ keys[p].val.t # "zero"
  /\ IF keys[o].kind = "prv" THEN keys[p].v = keys[o].v ELSE SideOf(keys[p].v) = SideOf(keys[o].v)
  /\ Import(o, [keys[p].val EXCEPT !.n = KeyLen(keys[p])]) /\ KEEPK
  /\ Log([op |-> "k.move", o |-> o, from |-> p])
GInit(o) == \E f \in Fields : \E v \in IF keys[o].kind = "prv" THEN PrvVars ELSE PubVars :
  /\ InitKey(o, f, v) /\ KEEPK
  /\ Log([op |-> "k.init", o |-> o, f |-> f, v |-> v])
GExp(o) == Known(o) /\ Export(o) /\ KEEPK /\ \E x \in {0, 1, 40} : Log([op |-> "k.exp", o |-> o, extra |-> x])
GSizes(o) == UNCHANGED << keys, reply >> /\ KEEPK /\ Log([op |-> "k.sizes", o |-> o])
GGen(o) == \E d \in {0, 0, 0, 5}, c \in {0, 1, 7} :
  /\ keys[o].kind = "prv"
  /\ Generate(o, Tok(KeyLen(keys[o]) + d, "gen")) /\ KEEPK
  /\ Log([op |-> "k.gen", o |-> o, rnglen |-> KeyLen(keys[o]) + d, chunk |-> c])
GGenBad(o) == \E n \in {0, 1, MsgLen(keys[o].f), KeyLen(keys[o]) - 1}, c \in {0, 3} :
  /\ keys[o].kind = "prv"
  /\ n < KeyLen(keys[o])
  /\ Generate(o, Tok(n, "gen")) /\ KEEPK
  /\ Log([op |-> "k.gen", o |-> o, rnglen |-> n, chunk |-> c])
GPubGen(p) == \E q \in Pubs :
  /\ keys[p].kind = "prv" /\ Known(p) /\ PubGenFits(p, q)
  /\ PublicKey(p, q) /\ KEEPK /\ Log([op |-> "k.pubgen", prv |-> p, pub |-> q])
GPubGenBad(p) == \E q \in Pubs :
  /\ keys[p].kind = "prv" /\ Known(p) /\ ~ PubGenFits(p, q)
  /\ PublicKey(p, q) /\ KEEPK /\ Log([op |-> "k.pubgen", prv |-> p, pub |-> q])
GDerive(p) == \E q \in Pubs, x \in {0, 0, 30} :
  /\ keys[p].kind = "prv" /\ Known(p) /\ IsPub(q) /\ DeriveFits(p, q, GSec(keys[p].f))
  /\ Derive(p, q, GSec(keys[p].f) + x) /\ KEEPK
  /\ Log([op |-> "k.derive", prv |-> p, pub |-> q, outlen |-> GSec(keys[p].f) + x])
GDeriveBad(p) == \E q \in Pubs, n \in {0, 1, GSec(keys[p].f) - 1, GSec(keys[p].f), GSec(keys[p].f) + 64} :
  /\ keys[p].kind = "prv" /\ Known(p) /\ ~ DeriveFits(p, q, n)
  /\ (keys[p].f = keys[q].f /\ SideOf(keys[p].v) # SideOf(keys[q].v)) => IsPub(q)
  /\ Derive(p, q, n) /\ KEEPK
  /\ Log([op |-> "k.derive", prv |-> p, pub |-> q, outlen |-> n])

(* ---- KEM ---- *)
GAlloc(o) == \E f \in Fields : Allocate(o, f) /\ UNCHANGED cts /\ Log([op |-> "e.alloc", o |-> o, f |-> f])
GReset(o) == kems[o].alloc /\ Reset(o) /\ UNCHANGED cts /\ Log([op |-> "e.reset", o |-> o])
GKSizes(o) == kems[o].alloc /\ Sizes(o) /\ UNCHANGED cts /\ Log([op |-> "e.sizes", o |-> o])
CName == "c" \o ToString(Cardinality(DOMAIN cts))
GEnc(o) == \E q \in Pubs, x \in {0, 0, 1, 70}, y \in {0, 0, 3}, c \in {0, 5} :
  /\ kems[o].alloc /\ keys[q].v = "S" /\ IsPub(q) /\ keys[q].f = kems[o].f
  /\ Encapsulate(o, q, Tok(MsgLen(kems[o].f), "m"), GCt(kems[o].f) + x, MsgLen(kems[o].f) + y)
  /\ cts' = (CName :> << kems[o].f, q >>) @@ cts
  /\ Log([op |-> "e.enc", o |-> o, pub |-> q, c |-> CName, ctx |-> x, ssx |-> y, chunk |-> c, rnglen |-> MsgLen(kems[o].f)])
GEncFail(o) == \E q \in Pubs, n \in {0, 1, MsgLen(kems[o].f) - 1}, x \in {0, 10}, c \in {0, 4} :
  /\ kems[o].alloc /\ keys[q].v = "S" /\ IsPub(q) /\ keys[q].f = kems[o].f
  /\ Encapsulate(o, q, Tok(n, "m"), GCt(kems[o].f) + x, MsgLen(kems[o].f))
  /\ UNCHANGED cts
  /\ Log([op |-> "e.enc", o |-> o, pub |-> q, c |-> "none", ctx |-> x, ssx |-> 0, chunk |-> c, rnglen |-> n])
GEncBad(o) == \E q \in Pubs, x \in {0, -1, -16, -1000}, y \in {0, -1, -1000} :
  LET f == keys[q].f
      cl == IF x = -1000 THEN 0 ELSE GCt(f) + x
      sl == IF y = -1000 THEN 0 ELSE MsgLen(f) + y IN
  /\ kems[o].f = f
  /\ ~ EncFits(o, q, cl, sl)
  /\ keys[q].v = "S" => IsPub(q)
  /\ Encapsulate(o, q, Tok(MsgLen(f), "m"), cl, sl) /\ UNCHANGED cts
  /\ Log([op |-> "e.enc", o |-> o, pub |-> q, c |-> "none", ctx |-> cl - GCt(f), ssx |-> sl - MsgLen(f),
          chunk |-> 0, rnglen |-> MsgLen(f), bad |-> TRUE, raw |-> ~ kems[o].alloc])
(* a private key and a public key of the same field; cls says how the ciphertext differs *)
DecWith(o, p, q, c, cls, x) ==
  /\ kems[o].alloc /\ keys[p].kind = "prv" /\ keys[p].v = "S" /\ Known(p) /\ keys[p].f = kems[o].f
  /\ keys[q].v = "S" /\ IsPub(q) /\ keys[q].f = kems[o].f
  /\ cts[c][1] = kems[o].f
  /\ Decapsulate(o, p, q, Tok(GCt(kems[o].f), "ct"), MsgLen(kems[o].f) + x) /\ UNCHANGED cts
  /\ Log([op |-> "e.dec", o |-> o, prv |-> p, pub |-> q, c |-> c, cls |-> cls, ssx |-> x, f |-> kems[o].f])
GDec(o) == \E p \in Prvs, q \in Pubs, c \in DOMAIN cts, x \in {0, 0, 9} : DecWith(o, p, q, c, "same", x)
GDecMut(o) == \E p \in Prvs, q \in Pubs, c \in DOMAIN cts, m \in MutPos : DecWith(o, p, q, c, m, 0)
GDecBad(o) == \E p \in Prvs, q \in Pubs, d \in {0, -1, 1, -24}, y \in {0, -1, -1000} :
  LET f == kems[o].f  sl == IF y = -1000 THEN 0 ELSE MsgLen(f) + y IN
  /\ keys[p].f = f /\ keys[q].f = f
  /\ ~ DecFits(o, p, q, Tok(GCt(f) + d, "ct"), sl)
  /\ Known(p)
  /\ keys[q].v = "S" => IsPub(q)
  /\ Decapsulate(o, p, q, Tok(GCt(f) + d, "ct"), sl) /\ UNCHANGED cts
  /\ Log([op |-> "e.dec", o |-> o, prv |-> p, pub |-> q, ctlen |-> GCt(f) + d, ssx |-> sl - MsgLen(f), bad |-> TRUE])

Next == \/ Missing # {} /\ GMake
        \/ Missing = {} /\ Has({"imp"}) /\ \E o \in DOMAIN keys : GImp(o)
        \/ Missing = {} /\ Has({"impbad"}) /\ \E o \in DOMAIN keys : GImpBad(o)
        \/ Missing = {} /\ Has({"move"}) /\ \E o \in DOMAIN keys : GMove(o)
        \/ Missing = {} /\ Has({"init"}) /\ \E o \in DOMAIN keys : GInit(o)
        \/ Missing = {} /\ Has({"exp"}) /\ \E o \in DOMAIN keys : GExp(o)
        \/ Missing = {} /\ Has({"sizes"}) /\ \E o \in DOMAIN keys : GSizes(o)
        \/ Missing = {} /\ Has({"gen"}) /\ \E o \in DOMAIN keys : GGen(o)
        \/ Missing = {} /\ Has({"genbad"}) /\ \E o \in DOMAIN keys : GGenBad(o)
        \/ Missing = {} /\ Has({"pubgen"}) /\ \E p \in DOMAIN keys : GPubGen(p)
        \/ Missing = {} /\ Has({"bad", "pubgenbad"}) /\ \E p \in DOMAIN keys : GPubGenBad(p)
        \/ Missing = {} /\ Has({"derive"}) /\ \E p \in DOMAIN keys : GDerive(p)
        \/ Missing = {} /\ Has({"bad", "derivebad"}) /\ \E p \in DOMAIN keys : GDeriveBad(p)
        \/ Missing = {} /\ Has({"alloc"}) /\ \E o \in DOMAIN kems : GAlloc(o)
        \/ Missing = {} /\ Has({"reset"}) /\ \E o \in DOMAIN kems : GReset(o)
        \/ Missing = {} /\ Has({"ksizes"}) /\ \E o \in DOMAIN kems : GKSizes(o)
        \/ Missing = {} /\ Has({"enc"}) /\ \E o \in DOMAIN kems : GEnc(o)
        \/ Missing = {} /\ Has({"encfail"}) /\ \E o \in DOMAIN kems : GEncFail(o)
        \/ Missing = {} /\ Has({"bad"}) /\ \E o \in DOMAIN kems : GEncBad(o)
        \/ Missing = {} /\ Has({"dec"}) /\ \E o \in DOMAIN kems : GDec(o)
        \/ Missing = {} /\ Has({"mut"}) /\ \E o \in DOMAIN kems : GDecMut(o)
        \/ Missing = {} /\ Has({"bad"}) /\ \E o \in DOMAIN kems : GDecBad(o)
Spec == Init /\ [][Next]_gvars
Shape == << keys, kems, cts >>
=============================================================================
