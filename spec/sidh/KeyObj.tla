-------------------------------- MODULE KeyObj --------------------------------
(* SIDH and SIKE key objects.  A key is [kind, f, v, s, val]: kind "prv" or "pub", the
   field, the variant ("A", "B" or "S" for SIKE, which lives on side B), the value, and
   for SIKE private keys the secret S.  val = Unknown after a generation that failed half
   way.  reply is what the last call returned. *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS PubFn(_, _, _),       \* field, side, private key: public key
          SharedFn(_, _, _, _), \* field, side, private key, public key of the other side
          ClampFn(_, _, _),     \* field, variant, random bytes: the private key made of them
          SLen(_, _), ValLen(_, _, _),   \* lengths of S and of the value: field, variant (, kind)
          SecretLen(_),         \* length of a shared secret
          LenOf(_), Cut(_, _, _), Zeros0(_), JoinFn(_, _), Unknown
VARIABLES keys, reply

KInit == keys = << >> /\ reply = [call |-> "none"]

SideOf(v) == IF v = "A" THEN "A" ELSE "B"
KeyLen(k) == (IF k.kind = "prv" THEN SLen(k.f, k.v) ELSE 0) + ValLen(k.f, k.v, k.kind)
SOf(k) == IF k.kind = "prv" THEN SLen(k.f, k.v) ELSE 0
Bytes0(k) == IF SOf(k) = 0 THEN k.val ELSE JoinFn(k.s, k.val)

NewKey(o, kind, f, v) ==
  /\ keys' = (o :> [kind |-> kind, f |-> f, v |-> v, s |-> Zeros0(IF kind = "prv" THEN SLen(f, v) ELSE 0),
                    val |-> Zeros0(ValLen(f, v, kind))]) @@ keys
  /\ reply' = [call |-> "new"]
(* initialised again, for any field and variant: as a new one, except that its value is not
   defined before the next import or generation *)
InitKey(o, f, v) ==
  /\ keys' = [keys EXCEPT ![o] = [kind |-> @.kind, f |-> f, v |-> v, s |-> Unknown, val |-> Unknown]]
  /\ reply' = [call |-> "init"]
(* exact: the right length replaces everything, another length changes nothing *)
Import(o, data) ==
  LET k == keys[o] IN
  IF LenOf(data) = KeyLen(k)
  THEN /\ keys' = [keys EXCEPT ![o] = [k EXCEPT !.s = Cut(data, 0, SOf(k)), !.val = Cut(data, SOf(k), LenOf(data))]]
       /\ reply' = [call |-> "import", err |-> FALSE]
  ELSE UNCHANGED keys /\ reply' = [call |-> "import", err |-> TRUE]
Export(o) == UNCHANGED keys /\ reply' = [call |-> "export", out |-> Bytes0(keys[o])]
(* S and then the value are taken from the stream; a stream that ends fails the call *)
Generate(o, rng) ==
  LET k == keys[o]  n == KeyLen(k) IN
  IF LenOf(rng) < n
  THEN /\ keys' = [keys EXCEPT ![o].val = Unknown]
       /\ reply' = [call |-> "generate", err |-> TRUE, taken |-> LenOf(rng)]
  ELSE /\ keys' = [keys EXCEPT ![o] = [k EXCEPT !.s = Cut(rng, 0, SOf(k)),
                                                !.val = ClampFn(k.f, k.v, Cut(rng, SOf(k), n))]]
       /\ reply' = [call |-> "generate", err |-> FALSE, taken |-> n]

Refused == UNCHANGED keys /\ reply' = [call |-> "refused"]
PubGenFits(p, q) == keys[p].f = keys[q].f /\ keys[p].v = keys[q].v
PublicKey(p, q) ==
  IF PubGenFits(p, q)
  THEN /\ keys' = [keys EXCEPT ![q].val = PubFn(keys[p].f, SideOf(keys[p].v), keys[p].val)]
       /\ reply' = [call |-> "pubgen"]
  ELSE Refused
DeriveFits(p, q, n) == /\ keys[p].f = keys[q].f
                       /\ SideOf(keys[p].v) # SideOf(keys[q].v)
                       /\ n >= SecretLen(keys[p].f)
Derive(p, q, n) ==
  IF DeriveFits(p, q, n)
  THEN /\ UNCHANGED keys
       /\ reply' = [call |-> "derive",
                    out |-> SharedFn(keys[p].f, SideOf(keys[p].v), keys[p].val, keys[q].val)]
  ELSE Refused
=============================================================================
