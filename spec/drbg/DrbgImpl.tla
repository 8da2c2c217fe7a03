------------------------------- MODULE DrbgImpl -------------------------------
(* The shape of drbg/ctr_drbg.go over a symbolic block cipher E(key, ctr) = <<"E", key,
   ctr>>: the fields key and v of several objects, inc/SetKey/Encrypt steps in the order
   the code takes them, the shared 48-byte scratch block, zero padding of inputs.
   Checked: it refines DrbgObj (with SP 800-90A's algorithms written declaratively), and
   no block is encrypted twice under one key within an instantiation.
   A counter is <<base, offset>>, the offset being counted modulo CtrMod. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Objs, Entropy, Extra, Lens, MaxOps, CtrMod

VARIABLES
  key, v, strength, live,     \* fields of the objects
  used,                       \* per object: every <<key, counter>> encrypted since Init
  abs, reply, n
vars == << key, v, strength, live, used, abs, reply, n >>

(* inputs are records [t: token, len]; lengths are in units of half the seed length *)
Seed(a, b) == << "xor", a.t, b.t >>
Null == [t |-> "null", len |-> 0]
PadOf(a) == << "xor", "zero", a.t >>

ZeroKey == << "zero" >>
ZeroV == << << "zero" >>, 0 >>
E(k, c) == << "E", k, c >>
Inc(c) == << c[1], (c[2] + 1) % CtrMod >>
Plus(c, k) == << c[1], (c[2] + k) % CtrMod >>

---------------------------------------------------------------------------
(* SP 800-90A, declaratively.  A state is [k, c]. *)
UpdateFn(st, data) ==
  LET t == [i \in 1..3 |-> E(st.k, Plus(st.c, i))]
  IN  [k |-> << "key", t[1], t[2], data >>, c |-> << << "v", t[3], data >>, 0 >>]
InstFn(ent, pers) == UpdateFn([k |-> ZeroKey, c |-> ZeroV], Seed(ent, pers))
ReseedFn(st, ent, ad) == UpdateFn(st, Seed(ent, ad))
(* a length is <<full blocks, 1 if a partial block follows>>; the output is the sequence
   of blocks, the partial one marked *)
GenFn(st, len, ad) ==
  LET s1 == IF ad = Null THEN st ELSE UpdateFn(st, PadOf(ad))
      m == len[1] + len[2]
      out == [i \in 1..m |-> IF i <= len[1] THEN E(s1.k, Plus(s1.c, i)) ELSE << "part", E(s1.k, Plus(s1.c, i)) >>]
  IN  << out, UpdateFn([k |-> s1.k, c |-> Plus(s1.c, m)], PadOf(ad)) >>
EnoughE(ent) == ent.len >= 1

D == INSTANCE DrbgObj WITH drbg <- abs, reply <- reply, InstantiateOp <- InstFn,
       ReseedOp <- ReseedFn, GenerateOp <- GenFn, Enough <- EnoughE

---------------------------------------------------------------------------
(* the code.  A machine state m = [k, c, u, tmp]; u: pairs encrypted, in order *)
M(o) == [k |-> key[o], c |-> v[o], u |-> used[o], tmp |-> << "?", "?", "?" >>]
IncM(m) == [m EXCEPT !.c = Inc(@)]
EncTmp(m, i) == [m EXCEPT !.tmp[i] = E(m.k, m.c), !.u = Append(@, << m.k, m.c >>)]
UpdateC(m, data) ==
  LET m3 == FoldLeft(LAMBDA a, i : EncTmp(IncM(a), i), m, << 1, 2, 3 >>)
  IN  [m3 EXCEPT !.k = << "key", m3.tmp[1], m3.tmp[2], data >>,
                 !.c = << << "v", m3.tmp[3], data >>, 0 >>]
GenC(m, len, ad) ==
  LET m1 == IF ad.len > 0 THEN UpdateC(m, PadOf(ad)) ELSE m
      full == FoldLeft(LAMBDA a, i : LET b == IncM(a[1]) IN
                 << [b EXCEPT !.u = Append(@, << b.k, b.c >>)], Append(a[2], E(b.k, b.c)) >>,
                 << m1, << >> >>, [i \in 1..len[1] |-> i])
      part == IF len[2] = 0 THEN full
              ELSE LET b == EncTmp(IncM(full[1]), 1) IN << b, Append(full[2], << "part", b.tmp[1] >>) >>
  IN  << UpdateC(part[1], PadOf(ad)), part[2] >>

Set(o, m) == /\ key' = [key EXCEPT ![o] = m.k] /\ v' = [v EXCEPT ![o] = m.c]
             /\ used' = [used EXCEPT ![o] = m.u]

Init == /\ key = [o \in Objs |-> ZeroKey] /\ v = [o \in Objs |-> ZeroV]
        /\ strength = [o \in Objs |-> 0] /\ live = [o \in Objs |-> FALSE]
        /\ used = [o \in Objs |-> << >>] /\ n = 0
        /\ abs = [o \in Objs |-> [live |-> FALSE]] /\ reply = [call |-> "none"]

CInit(o, ent, pers) ==
  IF ent.len < strength[o]
  THEN UNCHANGED << key, v, strength, live, used >> /\ reply' = [call |-> "init", ok |-> FALSE]
       /\ UNCHANGED abs
  ELSE /\ strength' = [strength EXCEPT ![o] = 1]
       /\ live' = [live EXCEPT ![o] = TRUE]
       /\ Set(o, UpdateC([k |-> ZeroKey, c |-> ZeroV, u |-> << >>, tmp |-> << "?", "?", "?" >>], Seed(ent, pers)))
       /\ reply' = [call |-> "init", ok |-> TRUE]
       /\ abs' = [abs EXCEPT ![o] = [live |-> TRUE, st |-> InstFn(ent, pers)]]
CReseed(o, ent, ad) ==
  /\ live[o] /\ Set(o, UpdateC(M(o), Seed(ent, ad))) /\ UNCHANGED << strength, live >>
  /\ reply' = [call |-> "reseed"]
  /\ abs' = [abs EXCEPT ![o].st = ReseedFn(@, ent, ad)]
CGen(o, len, ad) ==
  /\ live[o]
  /\ LET r == GenC(M(o), len, ad) IN
     /\ Set(o, r[1])
     /\ reply' = [call |-> "generate", out |-> r[2], n |-> len, err |-> FALSE]
     /\ abs' = [abs EXCEPT ![o].st = GenFn(@, len, ad)[2]]
  /\ UNCHANGED << strength, live >>

Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E o \in Objs :
             \/ \E e \in Entropy, p \in Extra : CInit(o, e, p)
             \/ \E e \in Entropy, p \in Extra : CReseed(o, e, p)
             \/ \E len \in Lens, p \in Extra : CGen(o, len, p)
Spec == Init /\ [][Next]_vars

(* the fields are the state SP 800-90A prescribes *)
Agree == \A o \in Objs : /\ live[o] = abs[o].live
                         /\ live[o] => abs[o].st = [k |-> key[o], c |-> v[o]]
(* every step is one the contract allows; the first Init of an object may be the named
   deviation *)
AbsNext == \E o \in Objs :
             \/ \E e \in Entropy, p \in Extra : D!Init_(o, e, p) \/ D!InitAcceptsAnything(o, e, p) \/ D!Reseed(o, e, p)
             \/ \E len \in Lens, p \in Extra : D!Generate(o, len, p)
Refines == [][AbsNext]_<< abs, reply >>
NeverTwice == \A o \in Objs : \A i, j \in 1..Len(used[o]) : i # j => used[o][i] # used[o][j]

McEntropy == { [t |-> "e1", len |-> 1], [t |-> "e2", len |-> 2], [t |-> "short", len |-> 0] }
McExtra == { Null, [t |-> "x", len |-> 1] }
McLens == { <<0, 0>>, <<0, 1>>, <<1, 0>>, <<2, 1>> }
=============================================================================
