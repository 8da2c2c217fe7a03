-------------------------------- MODULE AesObj --------------------------------
(* AES cipher objects: a key register and two block functions. *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS EncFn(_, _), DecFn(_, _), ValidKey(_)
VARIABLES aes, reply

AInit == aes = << >> /\ reply = [call |-> "none"]
NoKey == [set |-> FALSE]
New(o, kind) == aes' = (o :> NoKey) @@ aes /\ reply' = [call |-> "new"]
SetKey(o, k) ==
  IF ValidKey(k) THEN aes' = [aes EXCEPT ![o] = [set |-> TRUE, key |-> k]] /\ reply' = [call |-> "key", err |-> FALSE]
  ELSE UNCHANGED aes /\ reply' = [call |-> "key", err |-> TRUE]
Crypt(o, dir, blk) ==
  /\ aes[o].set
  /\ UNCHANGED aes
  /\ reply' = [call |-> "crypt", out |-> IF dir = "enc" THEN EncFn(aes[o].key, blk) ELSE DecFn(aes[o].key, blk)]
(* a buffer that is too short is refused by a panic *)
Refuse(o) == UNCHANGED aes /\ reply' = [call |-> "refused"]
=============================================================================
