------------------------------- MODULE DrbgObj -------------------------------
(* CTR_DRBG objects: what a history of calls means (SP 800-90A).  The working state and
   the three algorithms are parameters:
     MC_Drbg     symbolic, model checked together with the code-shaped DrbgImpl
     DrbgGen     generation of histories (everything is a length)
     DrbgTrace   validation of traces, with the functions of CtrDrbgFn *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS
  InstantiateOp(_, _),   \* entropy, personalisation -> state
  ReseedOp(_, _, _),     \* state, entropy, additional input -> state
  GenerateOp(_, _, _),   \* state, length, additional input -> <<output, state>>
  Enough(_)              \* entropy has at least the security strength (256 bits)

VARIABLES drbg, reply
dvars == << drbg, reply >>

None == [live |-> FALSE]
Live(st) == [live |-> TRUE, st |-> st]

DInit == drbg = << >> /\ reply = [call |-> "none"]

New(o) == drbg' = (o :> None) @@ drbg /\ reply' = [call |-> "new"]

Init_(o, ent, pers) ==
  IF Enough(ent)
  THEN /\ drbg' = [drbg EXCEPT ![o] = Live(InstantiateOp(ent, pers))]
       /\ reply' = [call |-> "init", ok |-> TRUE]
  ELSE /\ UNCHANGED drbg
       /\ reply' = [call |-> "init", ok |-> FALSE]

(* named deviation (known finding drbg-first-init-short): an object that was never
   initialised accepts entropy of any length *)
InitAcceptsAnything(o, ent, pers) ==
  /\ ~ drbg[o].live
  /\ drbg' = [drbg EXCEPT ![o] = Live(InstantiateOp(ent, pers))]
  /\ reply' = [call |-> "init", ok |-> TRUE]

Reseed(o, ent, ad) ==
  /\ drbg[o].live
  /\ drbg' = [drbg EXCEPT ![o] = Live(ReseedOp(@.st, ent, ad))]
  /\ reply' = [call |-> "reseed"]

Generate(o, n, ad) ==
  /\ drbg[o].live
  /\ LET g == GenerateOp(drbg[o].st, n, ad) IN
     /\ drbg' = [drbg EXCEPT ![o] = Live(g[2])]
     /\ reply' = [call |-> "generate", out |-> g[1], n |-> n, err |-> FALSE]
=============================================================================
