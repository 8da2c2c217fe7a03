-------------------------------- MODULE CsidhObj --------------------------------
(* CSIDH key objects.  A key is [kind, val]: kind "prv" (37 bytes of exponents) or "pub"
   (64 bytes, a curve coefficient in Montgomery form).  val = Unknown after a generation that
   failed half way.  Randomness only picks points: it has no place in the results. *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS ActFn(_, _),      \* public key, private key: public key of the curve reached
          ValidFn(_),       \* the public key encodes a supersingular curve
          GenFn(_),         \* random bytes -> << key, "whole" >>, << key, "part" >> or << .., "short" >>
          LenOf(_), Cut(_, _, _), Blank(_), Unknown
VARIABLES keys, reply

CInit == keys = << >> /\ reply = [call |-> "none"]
PrvLen == 37
PubLen == 64

NewKey(o, kind) ==
  /\ keys' = (o :> [kind |-> kind, val |-> Blank(IF kind = "prv" THEN PrvLen ELSE PubLen)]) @@ keys
  /\ reply' = [call |-> "new"]
(* public keys need exactly 64 bytes, private keys are the first 37 *)
Accepts(kind, n) == IF kind = "prv" THEN n >= PrvLen ELSE n = PubLen
Import(o, data) ==
  LET k == keys[o] IN
  IF Accepts(k.kind, LenOf(data))
  THEN /\ keys' = [keys EXCEPT ![o].val = Cut(data, 0, IF k.kind = "prv" THEN PrvLen ELSE PubLen)]
       /\ reply' = [call |-> "import", ok |-> TRUE]
  ELSE UNCHANGED keys /\ reply' = [call |-> "import", ok |-> FALSE]
Export(o, n) ==
  /\ UNCHANGED keys
  /\ reply' = IF Accepts(keys[o].kind, n) THEN [call |-> "export", ok |-> TRUE, out |-> keys[o].val]
              ELSE [call |-> "export", ok |-> FALSE]
(* bytes in [-5, 5] become the exponents, in order; "part": the last of them lies in a block
   of 64 bytes the stream does not fill, which an implementation need not look at *)
Generate(o, rng) ==
  LET g == GenFn(rng) IN
  \/ /\ g[2] # "short"
     /\ keys' = [keys EXCEPT ![o].val = g[1]]
     /\ reply' = [call |-> "generate", err |-> FALSE]
  \/ /\ g[2] # "whole"
     /\ keys' = [keys EXCEPT ![o].val = Unknown]
     /\ reply' = [call |-> "generate", err |-> TRUE]
PublicKey(p, q) ==
  /\ keys' = [keys EXCEPT ![q].val = ActFn(Blank(PubLen), keys[p].val)]
  /\ reply' = [call |-> "pubgen"]
Validate(q) == UNCHANGED keys /\ reply' = [call |-> "validate", ok |-> ValidFn(keys[q].val)]
Derive(p, q) ==
  /\ UNCHANGED keys
  /\ reply' = IF ValidFn(keys[q].val)
              THEN [call |-> "derive", ok |-> TRUE, out |-> ActFn(keys[q].val, keys[p].val)]
              ELSE [call |-> "derive", ok |-> FALSE]
=============================================================================
