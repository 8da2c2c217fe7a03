-------------------------------- MODULE MkemObj --------------------------------
(* Multi-recipient KEM objects.  An object keeps the shared part ct0 of its last
   encapsulation; the recipients' parts are handed to them.  Everything a recipient gets
   depends on ct0, its own part and its key pair only. *)
EXTENDS KeyObj
CONSTANTS MEncFn(_, _, _),            \* field, public keys, message: [ct0, cts, ss]
          MDecFn(_, _, _, _, _, _),   \* field, S, private key, public key, ct0, part: secret
          MMsgLen(_), MZero(_)
VARIABLE mks

NewMk(o, alloc, f, n) == /\ mks' = (o :> [alloc |-> alloc, f |-> f, n |-> n, ct0 |-> MZero(f)]) @@ mks
                         /\ UNCHANGED keys /\ reply' = [call |-> "mk"]
(* a shared part made in another field means nothing in this one *)
MAllocate(o, f, n) == /\ mks' = [mks EXCEPT ![o] = [@ EXCEPT !.alloc = TRUE, !.f = f, !.n = n,
                                                            !.ct0 = IF mks[o].f = f THEN @ ELSE Unknown]]
                      /\ UNCHANGED keys /\ reply' = [call |-> "mk"]
MReset(o) == UNCHANGED << keys, mks >> /\ reply' = [call |-> "reset"]
(* what can be seen not to fit before the message is drawn *)
MEncRefusedEarly(o, sslen) == ~ mks[o].alloc \/ sslen < MMsgLen(mks[o].f)
MEncWrongKey(o, qs) == \E i \in DOMAIN qs : keys[qs[i]].v # "S"
MEncaps(o, qs, rng, sslen) ==
  IF MEncRefusedEarly(o, sslen) THEN UNCHANGED mks /\ Refused
  ELSE LET f == mks[o].f IN
       /\ \A i \in DOMAIN qs : keys[qs[i]].f = f
       /\ Len(qs) <= mks[o].n
       /\ IF LenOf(rng) < MMsgLen(f)
          THEN UNCHANGED << keys, mks >> /\ reply' = [call |-> "mencaps", err |-> TRUE, taken |-> LenOf(rng)]
          ELSE IF MEncWrongKey(o, qs)
          \* no secret comes out; what is left of ct0 is not specified
          THEN mks' = [mks EXCEPT ![o].ct0 = Unknown] /\ Refused
          ELSE LET r == MEncFn(f, [i \in DOMAIN qs |-> keys[qs[i]].val], Cut(rng, 0, MMsgLen(f))) IN
               /\ UNCHANGED keys
               /\ mks' = [mks EXCEPT ![o].ct0 = r.ct0]
               /\ reply' = [call |-> "mencaps", err |-> FALSE, taken |-> MMsgLen(f), ss |-> r.ss, ct0 |-> r.ct0, cts |-> r.cts]
MTamper(o, c) == mks' = [mks EXCEPT ![o].ct0 = c] /\ UNCHANGED keys /\ reply' = [call |-> "tamper"]
MDecFits(o, p, q, c, sslen) == /\ mks[o].alloc /\ keys[q].v = "S" /\ keys[p].v = "S"
                               /\ LenOf(c) = MMsgLen(mks[o].f) /\ sslen >= MMsgLen(mks[o].f)
MDecaps(o, p, q, c, sslen) ==
  /\ UNCHANGED mks
  /\ IF ~ MDecFits(o, p, q, c, sslen) THEN Refused
     ELSE /\ UNCHANGED keys /\ mks[o].ct0 # Unknown
          /\ reply' = [call |-> "mdecaps", ss |-> MDecFn(mks[o].f, keys[p].s, keys[p].val, keys[q].val, mks[o].ct0, c)]
=============================================================================
