-------------------------------- MODULE MkemImpl --------------------------------
(* How the code computes multi-recipient results, over symbolic terms: one message buffer that
   an RNG failure leaves half overwritten, one ephemeral scalar, one buffer for shared secrets
   that every recipient reuses, one SHAKE object, the ct0 kept between calls.  Checked: every
   result equals MkemObj's in every history of encapsulations for any list of recipients,
   failures, decapsulations with any pair of keys, altered parts and altered ct0; the
   recipients of one encapsulation all get its secret; everything else gets the rejection
   secret of the private key used.  Bit strings are sets of atoms as in SidhImpl. *)
EXTENDS MkemObj, FiniteSets
CONSTANTS Msgs, Deltas, MaxSeen, MaxTamper
VARIABLES scr,     \* object -> [msg, sec, j, sp, ct0]
          out,
          seen,    \* << ct0, part, recipient's public key, ss >> (history)
          tampered
ivars == << keys, reply, mks, scr, out, seen, tampered >>

SymDiff(a, b) == (a \ b) \cup (b \ a)
McPub(f, side, k) == << "pub", side, k >>
McShared(f, side, k, pk) == IF pk[1] = "pub" /\ pk[2] # side THEN << "j", { << side, k >>, << pk[2], pk[3] >> } >>
                            ELSE << "junk", side, k, pk >>
G(t, x) == { << "G", t, x >> }
McKS(m) == << "K", m >>
McMEnc(f, pks, m) == LET r == G(1, m) IN
  [ct0 |-> McPub(f, "A", r), cts |-> [i \in DOMAIN pks |-> SymDiff(m, G(2, McShared(f, "A", r, pks[i])))], ss |-> McKS(m)]
McMDec(f, s, sk, pk, ct0, tok) ==
  LET c == tok.t
      m == SymDiff(c, G(2, McShared(f, "B", sk, ct0)))
      r == G(1, m)
  IN McKS(IF McPub(f, "A", r) = ct0 /\ SymDiff(m, G(2, McShared(f, "A", r, pk))) = c THEN m ELSE s)
One(f) == 1
McZero(f) == << "zero" >>
McUnknown == << "unknown" >>
McClamp(f, v, b) == b
McSLen(f, v) == 1
McValLen(f, v, kind) == 2
McLen(x) == x.n
McCut(x, i, j) == x.t
McZeros(n) == { }
McJoin(s, v) == << s, v >>

Recs == {"1", "2"}
Sk(i) == "sk" \o i
Pk(i) == "pk" \o i
Init ==
  /\ keys = [o \in { Sk(i) : i \in Recs } \cup { Pk(i) : i \in Recs } |->
              LET i == IF o \in {"sk1", "pk1"} THEN "1" ELSE "2"
                  sec == { << "k", i >> } IN
              [kind |-> IF o \in {"sk1", "sk2"} THEN "prv" ELSE "pub", f |-> "f", v |-> "S", s |-> { << "S", i >> },
               val |-> IF o \in {"sk1", "sk2"} THEN sec ELSE McPub("f", "B", sec)]]
  /\ mks = ("e" :> [alloc |-> TRUE, f |-> "f", n |-> 2, ct0 |-> << "zero" >>])
  /\ scr = ("e" :> [msg |-> << { }, { } >>, sec |-> { }, j |-> << >>, sp |-> [abs |-> << >>, rd |-> FALSE], ct0 |-> << "zero" >>])
  /\ reply = [call |-> "none"] /\ out = << "none" >> /\ seen = { } /\ tampered = 0

SpReset == [abs |-> << >>, rd |-> FALSE]
SpAbsorb(s, x) == IF s.rd THEN s ELSE [s EXCEPT !.abs = Append(@, x)]
SpRead(s) == [s EXCEPT !.rd = TRUE]
SpOut(s) == IF s.rd THEN << "more" >> ELSE s.abs
Whole(m) == m[1] \cup m[2]
(* what hashing a tag and a value with the object gives, and the object afterwards *)
Hash(t, x) == LET sp == SpAbsorb(SpAbsorb(SpReset, t), x) IN << SpOut(sp), SpRead(sp) >>
GT(h) == G(h[1][1], h[1][2])

RECURSIVE Loop(_, _, _, _, _)
(* one recipient after another through the same buffers: << parts, j, sp >> *)
Loop(qs, msg, sec, j, sp) ==
  IF qs = << >> THEN << << >>, j, sp >>
  ELSE LET j1 == McShared("f", "A", sec, keys[Head(qs)].val)
           h == Hash(2, j1)
           r == Loop(Tail(qs), msg, sec, j1, h[2])
       IN << << SymDiff(Whole(msg), GT(h)) >> \o r[1], r[2], r[3] >>
IEncaps(o, qs, x) ==
  /\ MEncaps(o, qs, [n |-> 1, t |-> x], 1)
  /\ LET msg == << x, { } >>
         h1 == Hash(1, Whole(msg))
         sec == GT(h1)
         ct0 == McPub("f", "A", sec)
         lp == Loop(qs, msg, sec, scr[o].j, h1[2])
         h3 == Hash(3, Whole(msg))
         ss == McKS(h3[1][2])
     IN /\ scr' = [scr EXCEPT ![o] = [msg |-> msg, sec |-> sec, j |-> lp[2], sp |-> h3[2], ct0 |-> ct0]]
        /\ out' = << "enc", ct0, lp[1], ss >>
        /\ seen' = seen \cup { << ct0, lp[1][i], keys[qs[i]].val, ss >> : i \in DOMAIN qs }
  /\ UNCHANGED tampered
IEncFail(o, x) ==
  /\ MEncaps(o, << "pk1" >>, [n |-> 0, t |-> x], 1)
  /\ scr' = [scr EXCEPT ![o].msg = << x, scr[o].msg[1] >>]
  /\ out' = << "err" >> /\ UNCHANGED << seen, tampered >>
IDecaps(o, p, q, c) ==
  /\ MDecaps(o, p, q, [n |-> 1, t |-> c], 1)
  /\ LET ct0 == scr[o].ct0
         j1 == McShared("f", "B", keys[p].val, ct0)
         m == SymDiff(c, GT(Hash(2, j1)))
         sec == GT(Hash(1, m))
         j2 == McShared("f", "A", sec, keys[q].val)
         cti == SymDiff(m, GT(Hash(2, j2)))
         pick == IF McPub("f", "A", sec) = ct0 /\ cti = c THEN m ELSE keys[p].s
         h3 == Hash(3, pick)
     IN /\ scr' = [scr EXCEPT ![o] = [scr[o] EXCEPT !.sec = sec, !.j = j2, !.sp = h3[2]]]
        /\ out' = << "dec", McKS(h3[1][2]), p, q, c >>
  /\ UNCHANGED << seen, tampered >>
IReset(o) == /\ MReset(o) /\ scr' = [scr EXCEPT ![o].msg = << { }, { } >>, ![o].sec = { }]
             /\ out' = << "none" >> /\ UNCHANGED << seen, tampered >>
ITamper(o) == \E c \in { << "bad" >> } \cup { x[1] : x \in seen } :
  /\ tampered < MaxTamper /\ c # scr[o].ct0 /\ tampered' = tampered + 1
  /\ MTamper(o, c) /\ scr' = [scr EXCEPT ![o].ct0 = c] /\ out' = << "none" >> /\ UNCHANGED seen
Tried == { x[2] : x \in seen } \cup { SymDiff(x[2], d) : x \in seen, d \in Deltas }
Lists == { << >>, << "pk1" >>, << "pk2" >>, << "pk1", "pk2" >>, << "pk2", "pk1" >>, << "pk1", "pk1" >> }
Next == \E o \in DOMAIN mks : \/ \E qs \in Lists, x \in Msgs : IEncaps(o, qs, x)
                              \/ \E x \in Msgs : IEncFail(o, x)
                              \/ \E p \in {"sk1", "sk2"}, q \in {"pk1", "pk2"}, c \in Tried : IDecaps(o, p, q, c)
                              \/ IReset(o) \/ ITamper(o)
Spec == Init /\ [][Next]_ivars
Bound == Cardinality(seen) <= MaxSeen
View == << mks, scr, seen, tampered >>
KeptRight == \A o \in DOMAIN mks : scr[o].ct0 = mks[o].ct0
ResultsRight ==
  CASE reply.call = "mencaps" -> IF reply.err THEN out = << "err" >> ELSE out = << "enc", reply.ct0, reply.cts, reply.ss >>
    [] reply.call = "mdecaps" -> out[2] = reply.ss
    [] OTHER -> out = << "none" >>
Correct == out[1] = "dec" =>
  LET mine == { x \in seen : x[1] = scr["e"].ct0 /\ x[2] = out[5] /\ x[3] = keys[out[4]].val }
      own == keys[out[4]].val = McPub("f", "B", keys[out[3]].val) IN
  IF mine # { } /\ own THEN \A x \in mine : out[2] = x[4]
  ELSE out[2] = McKS(keys[out[3]].s) /\ \A x \in seen : out[2] # x[4]
StepsRight == [][ResultsRight' /\ Correct']_ivars
McMsgs == { { << "m1" >> }, { << "m2" >> } }
McDeltas == { { << "d" >> }, { << "m1" >>, << "m2" >> } }
McDelta == { { << "m1" >>, << "m2" >> } }
=============================================================================
