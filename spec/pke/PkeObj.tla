--------------------------------- MODULE PkeObj ---------------------------------
(* Public-key encryption from CSIDH (mkem.PKE, mkem.MultiPKE).  An object is only a place for
   the parts of the last multi-recipient encryption; no call depends on an earlier one.  The
   ephemeral curve u is the environment's choice (it comes out of the random generator). *)
EXTENDS CsidhObj
CONSTANTS MaskFn(_, _),     \* 16 bytes, shared secret: the bytes xor SHAKE128(secret)
          OverFn(_, _)      \* 64 bytes, 16 bytes: the first 16 replaced
VARIABLES pkes,             \* object -> [n, c0, parts]
          pcts              \* name -> [u, v]
PkeLen == 64
PInit == pkes = << >> /\ pcts = << >>
EmptyPke(n) == [n |-> n, c0 |-> Blank(PkeLen), parts |-> [i \in 1..n |-> Blank(PkeLen)]]
NewPke(o, n) ==
  /\ pkes' = (o :> EmptyPke(n)) @@ pkes
  /\ UNCHANGED << keys, pcts >> /\ reply' = [call |-> "newpke"]
Seed == UNCHANGED << keys, pkes, pcts >> /\ reply' = [call |-> "seed"]
(* d is the private key that belongs to the public key q; other is what there is instead of
   a ciphertext if q is invalid *)
Enc(o, q, d, c, pt, u, other) ==
  /\ UNCHANGED << keys, pkes >>
  /\ IF ValidFn(keys[q].val)
     THEN LET v == OverFn(Blank(PkeLen), MaskFn(pt, ActFn(u, d))) IN
          /\ pcts' = (c :> [u |-> u, v |-> v]) @@ pcts
          /\ reply' = [call |-> "enc", ok |-> TRUE, v |-> v]
     ELSE /\ pcts' = (c :> [u |-> u, v |-> other]) @@ pcts
          /\ reply' = [call |-> "enc", ok |-> FALSE]
SetCt(c, u, v) == UNCHANGED << keys, pkes >> /\ pcts' = (c :> [u |-> u, v |-> v]) @@ pcts /\ reply' = [call |-> "set"]
(* part i of the last multi-recipient encryption, as a ciphertext *)
TakePart(o, i, c) == SetCt(c, pkes[o].c0, pkes[o].parts[i])
Dec(o, p, c) ==
  /\ UNCHANGED << keys, pkes, pcts >>
  /\ reply' = IF ValidFn(pcts[c].u)
              THEN [call |-> "dec", ok |-> TRUE, pt |-> MaskFn(pcts[c].v, ActFn(pcts[c].u, keys[p].val))]
              ELSE [call |-> "dec", ok |-> FALSE]
(* recipients qs, not more than the object has room for; the other parts stay.  other[i] is
   what becomes of the part of a recipient whose public key is invalid *)
MEnc(o, qs, ds, pt, u, other) ==
  LET bad == { i \in DOMAIN qs : ~ ValidFn(keys[qs[i]].val) }
      part(i, old) == IF i > Len(qs) THEN old ELSE IF i \in bad THEN other[i] ELSE OverFn(old, MaskFn(pt, ActFn(u, ds[i]))) IN
  /\ UNCHANGED << keys, pcts >>
  /\ pkes' = [pkes EXCEPT ![o].c0 = u, ![o].parts = [i \in DOMAIN @ |-> part(i, @[i])]]
  /\ reply' = [call |-> "menc", bad |-> bad]
(* because of an invalid key the whole call may be refused *)
MRefuse(o, qs, u, parts) ==
  /\ \E i \in DOMAIN qs : ~ ValidFn(keys[qs[i]].val)
  /\ UNCHANGED << keys, pcts >>
  /\ pkes' = [pkes EXCEPT ![o].c0 = u, ![o].parts = parts]
  /\ reply' = [call |-> "refused"]
=============================================================================
