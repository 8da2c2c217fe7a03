-------------------------------- MODULE DrbgGen --------------------------------
(* Histories for DRBG objects: inputs and outputs are lengths.  `carry' asks for a seed
   that puts 16-k into the low bytes... see McCarry: number of trailing 0xff bytes of V. *)
EXTENDS DrbgObj, GenKit

CONSTANTS Objs, Ops, EntLens, AddLens, OutLens, Carries, Spy

GInst(e, p) == "st"
GReseed(s, e, a) == "st"
GGen(s, n, a) == << n, "st" >>
GEnough(e) == e >= 32
Has(o) == o \in Ops
gvars == << drbg, reply, hist >>

Init == DInit /\ hist = << >>
GNew(o) == o \notin DOMAIN drbg /\ New(o) /\ Log([op |-> "d.new", o |-> o, spy |-> Spy])
GInit(o) == \E e \in EntLens, p \in AddLens, c \in Carries :
   /\ Init_(o, e, p)
   /\ (c # 0) => e >= 48
   /\ Log([op |-> "d.init", o |-> o, entlen |-> e, perslen |-> p, carry |-> c])
(* a first Init with little entropy: refused by the contract, accepted by the deviation *)
GInitShort(o) == \E e \in {x \in EntLens : x < 32}, p \in AddLens :
   /\ InitAcceptsAnything(o, e, p)
   /\ Log([op |-> "d.init", o |-> o, entlen |-> e, perslen |-> p, carry |-> 0])
GRes(o) == \E e \in EntLens, p \in AddLens :
   /\ Reseed(o, e, p) /\ Log([op |-> "d.reseed", o |-> o, entlen |-> e, adlen |-> p])
GGenerate(o) == \E n \in OutLens, p \in AddLens :
   /\ Generate(o, n, p) /\ Log([op |-> "d.gen", o |-> o, n |-> n, adlen |-> p, read |-> FALSE])
GRead(o) == \E n \in OutLens :
   /\ Generate(o, n, 0) /\ Log([op |-> "d.gen", o |-> o, n |-> n, adlen |-> 0, read |-> TRUE])
Next ==
  \/ \E o \in Objs : GNew(o)
  \/ \E o \in DOMAIN drbg : Has("init") /\ GInit(o)
  \/ \E o \in DOMAIN drbg : Has("short") /\ GInitShort(o)
  \/ \E o \in DOMAIN drbg : Has("reseed") /\ GRes(o)
  \/ \E o \in DOMAIN drbg : Has("gen") /\ GGenerate(o)
  \/ \E o \in DOMAIN drbg : Has("gen") /\ GGenerate(o)
  \/ \E o \in DOMAIN drbg : Has("gen") /\ GRead(o)
Spec == Init /\ [][Next]_gvars
ShapeView == << [o \in DOMAIN drbg |-> drbg[o].live], reply >>
=============================================================================
