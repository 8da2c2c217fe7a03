------------------------------- MODULE HashGen -------------------------------
(* Call histories for hash objects, generated from HashObj: messages and outputs are
   abstracted to their lengths.  Lengths are chosen around the block boundaries of the
   object they are applied to.  `hist' is the history; complete ones are printed as
   scripts (SCRIPT <json>). *)
EXTENDS HashObj, GenKit, FiniteSets

CONSTANTS Objs, Algs, Ops, MaxTotal,
          Lens(_, _)      \* lengths to use at position u of a block of r bytes

GNothing(cfg) == 0
GAbsorb(cfg, m, d) == m + d
GOut(cfg, m, from, n) == n
GCat(a, b) == a + b
GLen(d) == d

XofAlgs == {"SHAKE128", "SHAKE256", "cSHAKE128", "cSHAKE256"}
BlockOf(a) == CASE a = "SHA3-224" -> 144 [] a \in {"SHA3-256", "SHAKE256", "cSHAKE256"} -> 136
                [] a = "SHA3-384" -> 104 [] a = "SHA3-512" -> 72 [] a = "SM3" -> 64 [] OTHER -> 168
SizeOf(a) == CASE a = "SHA3-224" -> 28 [] a = "SHA3-256" -> 32 [] a = "SHA3-384" -> 48
                [] a = "SHA3-512" -> 64 [] a = "SM3" -> 32 [] OTHER -> 0
CfgOf(a) == [alg |-> a, N |-> 0, S |-> 0, xof |-> a \in XofAlgs, size |-> SizeOf(a), block |-> BlockOf(a)]

(* lengths around the next block boundary, u bytes being used of the current block *)
Around(u, r) == { k \in {0, 1, 7, r - u - 9, r - u - 8, r - u - 2, r - u - 1, r - u, r - u + 1, r - u + 7, r, r + 1,
                         2*r - u - 1, 2*r - u, 2*r - u + 1, 3*r, 4*r - u + 3} : k >= 0 }

NLens == {0, 0, 1, 31, 32, 40, 200}
(* with N empty the prefix fills its block exactly for a customisation string of r - 7 *)
SLens(r) == {0, 1, 15, r - 9, r - 8, r - 7, r - 6, 2*r - 7, 8200}
Every(u, r) == 0..MaxTotal
Has(o) == o \in Ops
gvars == << obj, reply, hist >>

GNew(o, a) ==
  /\ o \notin DOMAIN obj
  /\ \E nl \in (IF a \in {"cSHAKE128", "cSHAKE256"} THEN NLens ELSE {0}),
        sl \in (IF a \in {"cSHAKE128", "cSHAKE256"} THEN SLens(BlockOf(a)) ELSE {0}) :
        \* prefix an exact multiple of the rate is among the choices
        /\ New(o, CfgOf(a))
        /\ Log([op |-> "h.new", o |-> o, alg |-> a, Nlen |-> nl, Slen |-> sl])

GWrite(o) == \E d \in Lens(obj[o].m % obj[o].cfg.block, obj[o].cfg.block) :
  /\ obj[o].m + d <= MaxTotal
  /\ Write(o, d) /\ Log([op |-> "h.write", o |-> o, dlen |-> d])
GSum(o) == ~ obj[o].cfg.xof /\ \E k \in {0, 0, 5}, sp \in {0, 3, obj[o].cfg.size - 1, obj[o].cfg.size, obj[o].cfg.size + 9} :
  /\ Sum(o, k) /\ Log([op |-> "h.sum", o |-> o, inlen |-> k, inspare |-> sp])
GRead(o) == obj[o].cfg.xof /\ \E n \in Lens(obj[o].off % obj[o].cfg.block, obj[o].cfg.block) :
  /\ obj[o].off + n <= MaxTotal
  /\ Read(o, n) /\ Log([op |-> "h.read", o |-> o, n |-> n])
GClone(o) == obj[o].cfg.xof /\ \E q \in Objs \ {o} :
  /\ Clone(o, q) /\ Log([op |-> "h.clone", o |-> o, to |-> q])
GReset(o) == Reset(o) /\ Log([op |-> "h.reset", o |-> o])
GSize(o) == ~ obj[o].cfg.xof /\ Sizes(o) /\ Log([op |-> "h.size", o |-> o])

(* one-shot SHAKE *)
GOneShot == \E a \in Algs \cap {"SHAKE128", "SHAKE256"} : \E d \in Lens(0, BlockOf(a)), n \in Around(0, BlockOf(a)) :
  /\ UNCHANGED << obj, reply >>
  /\ Log([op |-> "h.shakesum", alg |-> a, dlen |-> d, n |-> n])

Init == HInit /\ hist = << >>
(* a top level disjunction: in simulation TLC first picks a disjunct, then an instance of it *)
Next ==
  \/ \E o \in Objs : \E a \in Algs : Has("new") /\ GNew(o, a)
  \/ \E o \in DOMAIN obj : Has("write") /\ GWrite(o)
  \/ \E o \in DOMAIN obj : Has("write") /\ GWrite(o)
  \/ \E o \in DOMAIN obj : Has("sum") /\ GSum(o)
  \/ \E o \in DOMAIN obj : Has("read") /\ GRead(o)
  \/ \E o \in DOMAIN obj : Has("read") /\ GRead(o)
  \/ \E o \in DOMAIN obj : Has("clone") /\ GClone(o)
  \/ \E o \in DOMAIN obj : Has("reset") /\ GReset(o)
  \/ \E o \in DOMAIN obj : Has("size") /\ GSize(o)
  \/ Has("oneshot") /\ GOneShot
Spec == Init /\ [][Next]_gvars

(* one test per transition of the quotient in which an object is its configuration,
   phase and position in the block (used with a breadth-first run and this VIEW) *)
Shape(o) == << obj[o].cfg.alg, obj[o].phase, obj[o].m % obj[o].cfg.block, obj[o].m >= obj[o].cfg.block,
               obj[o].off % obj[o].cfg.block, obj[o].off >= obj[o].cfg.block >>
ShapeView == [o \in DOMAIN obj |-> Shape(o)]
=============================================================================
