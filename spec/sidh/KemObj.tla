-------------------------------- MODULE KemObj --------------------------------
(* SIKE KEM objects on top of KeyObj.  A KEM object has no state beyond its parameters: what
   a call returns does not depend on earlier calls. *)
EXTENDS KeyObj
CONSTANTS EncapsFn(_, _, _),       \* field, public key, message: [ct, ss]
          DecapsFn(_, _, _, _, _), \* field, S, private key, public key, ciphertext: secret
          MLen(_), CtLen(_), SsLen(_)
VARIABLE kems

MInit == KInit /\ kems = << >>
NewKem(o, alloc, f) == /\ kems' = (o :> [alloc |-> alloc, f |-> f]) @@ kems
                       /\ UNCHANGED keys /\ reply' = [call |-> "kem"]
Allocate(o, f) == /\ kems' = [kems EXCEPT ![o] = [alloc |-> TRUE, f |-> f]]
                  /\ UNCHANGED keys /\ reply' = [call |-> "alloc"]
Reset(o) == UNCHANGED << keys, kems >> /\ reply' = [call |-> "reset"]
Sizes(o) == /\ UNCHANGED << keys, kems >>
            /\ reply' = [call |-> "sizes", ct |-> CtLen(kems[o].f), ss |-> SsLen(kems[o].f)]

EncFits(o, q, ctlen, sslen) ==
  /\ kems[o].alloc /\ keys[q].v = "S" /\ keys[q].kind = "pub"
  /\ ctlen >= CtLen(kems[o].f) /\ sslen >= SsLen(kems[o].f)
(* the message is drawn from the stream; if that fails nothing is written *)
Encapsulate(o, q, rng, ctlen, sslen) ==
  /\ UNCHANGED kems
  /\ IF ~ EncFits(o, q, ctlen, sslen) THEN Refused
     ELSE LET f == kems[o].f IN
          /\ UNCHANGED keys
          /\ IF LenOf(rng) < MLen(f)
             THEN reply' = [call |-> "encaps", err |-> TRUE, taken |-> LenOf(rng)]
             ELSE LET r == EncapsFn(f, keys[q].val, Cut(rng, 0, MLen(f)))
                  IN reply' = [call |-> "encaps", err |-> FALSE, ct |-> r.ct, ss |-> r.ss, taken |-> MLen(f)]
DecFits(o, p, q, ct, sslen) ==
  /\ kems[o].alloc /\ keys[q].v = "S" /\ keys[p].v = "S"
  /\ LenOf(ct) = CtLen(kems[o].f) /\ sslen >= SsLen(kems[o].f)
Decapsulate(o, p, q, ct, sslen) ==
  /\ UNCHANGED kems
  /\ IF ~ DecFits(o, p, q, ct, sslen) THEN Refused
     ELSE /\ UNCHANGED keys
          /\ reply' = [call |-> "decaps",
                       ss |-> DecapsFn(kems[o].f, keys[p].s, keys[p].val, keys[q].val, ct)]
=============================================================================
