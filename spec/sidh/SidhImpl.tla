-------------------------------- MODULE SidhImpl --------------------------------
(* How the code keeps keys and computes KEM results, over symbolic terms: key memory that is
   cleared and filled in by OR-ing limbs, the KEM object's scratch (message buffer that an
   RNG failure leaves half overwritten, ephemeral scalar, one SHAKE object that has to be
   reset before each use).  Checked: every result equals KemObj's, in every history; both
   parties derive the same secret; an encapsulation decapsulates to its secret with the
   matching key pair only; altered ciphertexts give rejection secrets.
   A bit string is a set of atoms, xor is the symmetric difference. *)
EXTENDS KemObj, FiniteSets
CONSTANTS Msgs, PrvVals, Deltas
VARIABLES mem,     \* key memory: object -> value the code would use
          scr,     \* KEM object -> [msg, sec, sp]
          out,     \* what the code returned
          seen     \* secrets encapsulated so far: << public key, ct, ss >> (history)
ivars == << keys, reply, kems, mem, scr, out, seen >>

SymDiff(a, b) == (a \ b) \cup (b \ a)
H(x) == { << "H", x >> }
(* public keys and secrets; the secret is the pair of the two private keys *)
McPub(f, side, k) == << "pub", side, k >>
McShared(f, side, k, pk) == IF pk[1] = "pub" /\ pk[2] # side THEN << "j", { << side, k >>, << pk[2], pk[3] >> } >>
                            ELSE << "junk", side, k, pk >>
McClamp(f, v, b) == b
McSLen(f, v) == 1
McValLen(f, v, kind) == 2
McSecLen(f) == 1
McLen(x) == x.n
McCut(x, i, j) == x.t
McZeros(n) == { }
McJoin(s, v) == << s, v >>
McEncaps(f, pk, m) ==
  LET r == { << "G", m, pk >> }
      ct == << McPub(f, "A", r), SymDiff(m, H(McShared(f, "A", r, pk))) >>
  IN [ct |-> ct, ss |-> << "K", m, ct >>]
McDecaps(f, s, sk, pk, tok) ==
  LET ct == tok.t
      m == SymDiff(ct[2], H(McShared(f, "B", sk, ct[1])))
  IN IF McPub(f, "A", { << "G", m, pk >> }) = ct[1] THEN << "K", m, ct >> ELSE << "K", s, ct >>
One(f) == 1
McUnknown == << "unknown" >>

(* two key pairs on the SIKE side, one ephemeral side A key pair *)
Init ==
  /\ keys = [o \in {"sk", "sk2", "pk", "a", "pa"} |->
              [kind |-> IF o \in {"pk", "pa"} THEN "pub" ELSE "prv", f |-> "f",
               v |-> IF o \in {"a", "pa"} THEN "A" ELSE "S", s |-> { << "S", o >> },
               val |-> IF o \in {"pk", "pa"} THEN << "none" >> ELSE { << "k", o >> }]]
  /\ kems = ("e" :> [alloc |-> TRUE, f |-> "f"])
  /\ mem = [o \in {"sk", "sk2", "pk", "a", "pa"} |-> IF o \in {"pk", "pa"} THEN << "none" >> ELSE { << "k", o >> }]
  /\ scr = ("e" :> [msg |-> << { }, { } >>, sec |-> { }, sp |-> << >>])
  /\ reply = [call |-> "none"] /\ out = << "none" >> /\ seen = { }

Keep == UNCHANGED << kems, scr, seen >>
(* ---- keys ---- *)
IImport(o, x) ==
  /\ keys[o].kind = "prv"
  /\ keys' = [keys EXCEPT ![o].val = x] /\ reply' = [call |-> "import"] /\ out' = << "none" >>
  /\ mem' = [mem EXCEPT ![o] = { } \cup x]        \* cleared, then filled in
  /\ Keep
IPubGen(p, q) ==
  /\ keys[p].kind = "prv" /\ keys[q].kind = "pub" /\ PublicKey(p, q)
  /\ IF PubGenFits(p, q) THEN mem' = [mem EXCEPT ![q] = McPub("f", SideOf(keys[p].v), mem[p])] /\ out' = << "none" >>
     ELSE UNCHANGED mem /\ out' = << "panic" >>
  /\ Keep
IDerive(p, q) ==
  /\ keys[p].kind = "prv" /\ keys[q].kind = "pub" /\ keys[q].val # << "none" >> /\ Derive(p, q, 1) /\ UNCHANGED mem
  /\ out' = IF DeriveFits(p, q, 1) THEN << "ss", McShared("f", SideOf(keys[p].v), mem[p], mem[q]) >> ELSE << "panic" >>
  /\ Keep

(* ---- the SHAKE object: squeezing leaves it in the reading phase, where it absorbs nothing ---- *)
SpReset(s) == [abs |-> << >>, rd |-> FALSE]
SpAbsorb(s, x) == IF s.rd THEN s ELSE [s EXCEPT !.abs = Append(@, x)]
SpRead(s) == [s EXCEPT !.rd = TRUE]
(* what a read returns is named by what was absorbed *)
SpOut(s) == IF s.rd THEN << "more" >> ELSE s.abs
Whole(m) == m[1] \cup m[2]
Halves(m) == << m, { } >>      \* the second half only matters when it was left over

GTerm(sp) == { << "G", sp[1], sp[2] >> }
KTerm(sp) == << "K", sp[1], sp[2] >>
IEncaps(o, q, x) ==
  /\ keys[q].val # << "none" >> /\ keys[q].v = "S"
  /\ Encapsulate(o, q, [n |-> 1, t |-> x], 1, 1)
  /\ LET s0 == scr[o]
         msg == Halves(x)
         sp1 == SpAbsorb(SpAbsorb(SpReset(s0.sp), Whole(msg)), mem[q])
         sec == GTerm(SpOut(sp1))
         j == McShared("f", "A", sec, mem[q])
         sp2 == SpAbsorb(SpReset(SpRead(sp1)), j)
         c1 == SymDiff(Whole(msg), { << "H", SpOut(sp2)[1] >> })
         ct == << McPub("f", "A", sec), c1 >>
         sp3 == SpAbsorb(SpAbsorb(SpReset(SpRead(sp2)), Whole(msg)), ct)
     IN /\ scr' = [scr EXCEPT ![o] = [msg |-> msg, sec |-> sec, sp |-> SpRead(sp3)]]
        /\ out' = << "enc", ct, KTerm(SpOut(sp3)) >>
        /\ seen' = seen \cup { << mem[q], ct, KTerm(SpOut(sp3)) >> }
  /\ UNCHANGED mem
(* the stream ends after half of the message *)
IEncFail(o, q, x) ==
  /\ keys[q].val # << "none" >> /\ keys[q].v = "S"
  /\ Encapsulate(o, q, [n |-> 0, t |-> x], 1, 1)
  /\ scr' = [scr EXCEPT ![o].msg = << x, scr[o].msg[1] >>]
  /\ out' = << "err" >> /\ UNCHANGED << mem, seen >>
IDecaps(o, p, q, ct) ==
  /\ keys[q].val # << "none" >> /\ keys[q].v = "S" /\ keys[p].v = "S"
  /\ Decapsulate(o, p, q, [n |-> 1, t |-> ct], 1)
  /\ LET s0 == scr[o]
         j == McShared("f", "B", mem[p], ct[1])
         sp1 == SpAbsorb(SpReset(s0.sp), j)
         m == SymDiff(ct[2], { << "H", SpOut(sp1)[1] >> })
         sp2 == SpAbsorb(SpAbsorb(SpReset(SpRead(sp1)), m), mem[q])
         sec == GTerm(SpOut(sp2))
         pick == IF McPub("f", "A", sec) = ct[1] THEN m ELSE keys[p].s
         sp3 == SpAbsorb(SpAbsorb(SpReset(SpRead(sp2)), pick), ct)
     IN /\ scr' = [scr EXCEPT ![o] = [s0 EXCEPT !.sec = sec, !.sp = SpRead(sp3)]]
        /\ out' = << "dec", KTerm(SpOut(sp3)), p, q, ct >>
  /\ UNCHANGED << mem, seen >>
IReset(o) == /\ Reset(o) /\ scr' = [scr EXCEPT ![o].msg = << { }, { } >>, ![o].sec = { }]
             /\ out' = << "none" >> /\ UNCHANGED << mem, seen >>

(* the ciphertexts that are tried: those encapsulated, altered ones, and foreign ones *)
Tried == { x[2] : x \in seen }
         \cup { << x[2][1], SymDiff(x[2][2], d) >> : x \in seen, d \in Deltas }
         \cup { << << "bad" >>, x[2][2] >> : x \in seen }
         \cup { << x[2][1], y[2][2] >> : x \in seen, y \in seen }
Next ==
  \/ \E o \in DOMAIN keys, x \in PrvVals : IImport(o, x)
  \/ \E p, q \in DOMAIN keys : IPubGen(p, q) \/ IDerive(p, q)
  \/ \E o \in DOMAIN kems : \/ \E q \in {"pk", "pa"}, x \in Msgs : IEncaps(o, q, x) \/ IEncFail(o, q, x)
                            \/ \E p \in {"sk", "sk2"}, q \in {"pk"}, ct \in Tried : IDecaps(o, p, q, ct)
                            \/ IReset(o)
Spec == Init /\ [][Next]_ivars
CONSTANT MaxSeen
Bound == Cardinality(seen) <= MaxSeen
View == << [o \in DOMAIN keys |-> keys[o].val], mem, scr, seen >>

MemRight == \A o \in DOMAIN keys : mem[o] = keys[o].val
ResultsRight ==
  CASE reply.call = "derive" -> out = << "ss", reply.out >>
    [] reply.call = "refused" -> out = << "panic" >>
    [] reply.call = "encaps" -> IF reply.err THEN out = << "err" >> ELSE out = << "enc", reply.ct, reply.ss >>
    [] reply.call = "decaps" -> out[2] = reply.ss
    [] OTHER -> out = << "none" >>
(* both parties of an exchange agree *)
Agree == \A p, q \in { o \in DOMAIN keys : keys[o].kind = "prv" } :
  SideOf(keys[p].v) # SideOf(keys[q].v) =>
    McShared("f", SideOf(keys[p].v), mem[p], McPub("f", SideOf(keys[q].v), mem[q]))
      = McShared("f", SideOf(keys[q].v), mem[q], McPub("f", SideOf(keys[p].v), mem[p]))
Fits(p, q) == mem[q] = McPub("f", "B", mem[p])
Correct == out[1] = "dec" =>
  LET mine == { x \in seen : x[1] = mem[out[4]] /\ x[2] = out[5] } IN
  IF mine # { } /\ Fits(out[3], out[4]) THEN \E x \in mine : out[2] = x[3]
  ELSE /\ \A x \in seen : out[2] # x[3]
       /\ out[2] = << "K", keys[out[3]].s, out[5] >>
(* the replies are not part of the view: checked on every transition *)
StepsRight == [][ResultsRight' /\ Correct']_ivars
McMsgs == { { << "m1" >> }, { << "m2" >> } }
McPrv == { { << "k", "sk" >>, << "k", "x" >> } }
McDeltas == { { << "d" >> }, { << "m1" >>, << "m2" >> } }
=============================================================================
