----------------------------- MODULE MC_HashObj -----------------------------
(* Exhaustive model checking of HashObj with symbolic messages and outputs:
   output byte i of message m under configuration c is the term <<c, m, i>>, so two
   outputs are equal only if configuration, message and position are. *)
EXTENDS HashObj, FiniteSets

CONSTANTS Objs, MaxLen, MaxOut, Tokens, XOF

McNothing(cfg) == << >>
McAbsorb(cfg, m, d) == m \o d
McOut(cfg, m, from, n) == [i \in 1..n |-> << cfg.alg, m, from + i >>]
McCat(a, b) == a \o b
McLen(d) == Len(d)

Cfg(name) == [alg |-> name, N |-> << >>, S |-> << >>, xof |-> XOF,
              size |-> IF XOF THEN 0 ELSE 2, block |-> 3]

(* what each object has returned so far since its (re)start, and what was written *)
VARIABLES got, put, src
mcvars == << obj, reply, got, put, src >>

Data == UNION { [1..n -> Tokens] : n \in 0..2 }

Init == HInit /\ got = << >> /\ put = << >> /\ src = << >>

Up(f, o, v) == (o :> v) @@ f
Next ==
  \/ \E o \in Objs, c \in {"h1", "h2"} :
       /\ o \notin DOMAIN obj /\ New(o, Cfg(c))
       /\ got' = Up(got, o, << >>) /\ put' = Up(put, o, << >>) /\ src' = Up(src, o, "new")
  \/ \E o \in DOMAIN obj :
       \/ \E d \in Data : Len(obj[o].m) + Len(d) <= MaxLen /\ Write(o, d)
            /\ put' = (IF reply'.err THEN put ELSE [put EXCEPT ![o] = @ \o d])
            /\ UNCHANGED << got, src >>
       \/ ~ XOF /\ \E in \in {<< >>, << 7 >>} : Sum(o, in) /\ UNCHANGED << got, put, src >>
       \/ XOF /\ \E n \in 0..2 : obj[o].off + n <= MaxOut /\ Read(o, n)
            /\ got' = [got EXCEPT ![o] = @ \o reply'.out] /\ UNCHANGED << put, src >>
       \/ XOF /\ \E q \in Objs \ {o} : Clone(o, q)
            /\ got' = Up(got, q, got[o]) /\ put' = Up(put, q, put[o]) /\ src' = Up(src, q, "clone")
       \/ Reset(o) /\ got' = [got EXCEPT ![o] = << >>] /\ put' = [put EXCEPT ![o] = << >>]
            /\ UNCHANGED src
       \/ Sizes(o) /\ UNCHANGED << got, put, src >>

Spec == Init /\ [][Next]_mcvars

TypeOK == /\ DOMAIN obj \subseteq Objs
          /\ \A o \in DOMAIN obj : obj[o].phase \in {"absorbing", "squeezing"}
                                   /\ (obj[o].phase = "absorbing" => obj[o].off = 0)

(* successive reads return consecutive parts of one stream of the written message *)
OneStream == \A o \in DOMAIN obj :
   got[o] = McOut(obj[o].cfg, put[o], 0, obj[o].off)
(* the accepted writes, in order, are the message *)
WritesCount == \A o \in DOMAIN obj : obj[o].m = put[o]
(* nothing is accepted once squeezing *)
NoLateWrite == [][\A o \in DOMAIN obj :
   (obj[o].phase = "squeezing" /\ o \in DOMAIN obj' /\ obj'[o].phase = "squeezing"
      /\ reply'.call = "write") => obj'[o].m = obj[o].m]_mcvars
(* a call touches one object only *)
Isolation == [][Cardinality({o \in DOMAIN obj : obj'[o] # obj[o]}) <= 1]_mcvars
(* Sum and the size functions are observers *)
Observers == [][reply'.call \in {"sum", "sizes"} => obj' = obj]_mcvars
SumIsDigest == reply.call = "sum" =>
   \E o \in DOMAIN obj : \E in \in {<< >>, << 7 >>} : reply.out = in \o McOut(obj[o].cfg, put[o], 0, 2)
ResetIsFresh == [][reply'.call = "reset" =>
   \E o \in DOMAIN obj : obj'[o] = Fresh(obj[o].cfg)]_mcvars
=============================================================================
