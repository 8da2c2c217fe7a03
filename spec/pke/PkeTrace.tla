-------------------------------- MODULE PkeTrace --------------------------------
(* Validation of traces of PKE objects.  The ephemeral private key is not seen: the ciphertext
   is judged with the recipient's private key.  Ephemeral curves must be valid, fresh within a
   seeding of the random generator and between seeds, and a function of the calls since the
   seeding (so nothing else, such as an object's past, has a part in them). *)
EXTENDS CsidhTrace, Keccak
VARIABLES pkes, pcts,
          rng,        \* [seed, log, us]: calls, and curves drawn, since the generator was seeded
          drawn,      \* << seed, log >> -> u
          sent        \* ciphertext << u, first 16 of v >> -> << private key, plaintext >>
pvars == << tvars, pkes, pcts, rng, drawn, sent >>
TrMask(b, ss) == XorSeq(SubSeq(b, 1, 16), TLCEval(SHAKE128(ss, 16)))
TrOver(b, m) == m \o SubSeq(b, 17, 64)
PK == INSTANCE PkeObj WITH MaskFn <- TrMask, OverFn <- TrOver
Keep == UNCHANGED << src, agreed >>
Secret(q) == IF q \in DOMAIN src THEN src[q] ELSE << >>
Called(x) == rng' = [rng EXCEPT !.log = Append(@, x)]
(* u was drawn by the call x *)
Drew(u, x) ==
  LET k == << rng.seed, Append(rng.log, x) >> IN
  /\ Chk("ephemeral key valid", TrValid(u), TRUE)
  /\ IF k \in DOMAIN drawn THEN Chk("determined by the generator", u, drawn[k])
     ELSE Chk("fresh", \E j \in DOMAIN drawn : drawn[j] = u /\ (j[1] # rng.seed \/ u \in rng.us), FALSE)
  /\ drawn' = With(drawn, k, u)
  /\ rng' = [rng EXCEPT !.log = Append(@, x), !.us = @ \cup {u}]
Pad16(ss) == SHAKE128(ss, 16)
Zeros64 == Zeros(64)

EncStep(e) ==
  LET q == keys[e.pub].val  d == Secret(e.pub) IN
  /\ PK!Enc(e.o, e.pub, d, e.c, e.pt, e.u, e.v)
  /\ IF e.pan THEN UNCHANGED << rng, drawn >> ELSE Drew(e.u, << "enc", q, e.pt >>)
  /\ IF reply'.ok
     THEN /\ Chk("panic", e.pan, FALSE)
          /\ Chk("c1", e.v, reply'.v)
          /\ sent' = With(sent, << e.u, SubSeq(e.v, 1, 16) >>, << d, e.pt >>)
     ELSE \* nothing that everybody can undo; known: the pad is the hash of 64 zero bytes
          /\ UNCHANGED sent
          /\ IF e.v = TrOver(Zeros64, TrMask(e.pt, Zeros64)) /\ Known("pke-invalid-key") THEN TRUE
             ELSE Chk("refused", e.pan \/ e.v = Zeros64, TRUE)
DecStep(e) ==
  /\ PK!Dec(e.o, e.prv, e.c) /\ UNCHANGED << drawn, sent >> /\ Called(<< "dec", keys[e.prv].val, pcts[e.c] >>)
  /\ IF reply'.ok
     THEN LET k == << pcts[e.c].u, SubSeq(pcts[e.c].v, 1, 16) >> IN
          /\ Chk("panic", e.pan, FALSE)
          /\ Chk("plaintext", e.pt, reply'.pt)
          /\ IF k \in DOMAIN sent /\ sent[k][1] = keys[e.prv].val THEN Chk("round trip", e.pt, sent[k][2]) ELSE TRUE
     ELSE IF e.pt = TrMask(pcts[e.c].v, Zeros64) /\ Known("pke-invalid-key") THEN TRUE
          ELSE Chk("refused", e.pan \/ e.pt = Zeros(16), TRUE)
MEncStep(e) ==
  LET ds == [i \in DOMAIN e.pubs |-> Secret(e.pubs[i])]
      n == Len(e.pubs)
      good(i) == i \notin reply'.bad
      ss(i) == TrAct(e.c0, ds[i])
      (* what the shared buffer holds when an invalid key follows *)
      used(b) == TLCEval(TrOver(b, Pad16(b)))
      left == TLCEval(FoldLeft(LAMBDA s, i : Append(s, used(IF good(i) THEN ss(i) ELSE s[i])), << Zeros64 >>, [i \in 1..n |-> i]))
      stale(i) == { Zeros64, left[i] }
      known(i) == \E z \in stale(i) : e.parts[i] = TrOver(pkes[e.o].parts[i], TrMask(e.pt, z))
  IN /\ PK!MEnc(e.o, e.pubs, ds, e.pt, e.c0, e.parts)
     /\ Drew(e.c0, << "menc", [i \in 1..n |-> keys[e.pubs[i]].val], e.pt >>)
     /\ \A i \in 1..Len(pkes[e.o].parts) :
          IF i > n \/ good(i) THEN Chk("c1", e.parts[i], pkes'[e.o].parts[i])
          ELSE IF known(i) /\ Known("pke-invalid-key") THEN TRUE
          ELSE Chk("refused", e.parts[i] = pkes[e.o].parts[i], TRUE)
     /\ Chk("panic", e.pan, FALSE)
     /\ sent' = [ k \in { << e.c0, SubSeq(e.parts[i], 1, 16) >> : i \in { j \in 1..n : good(j) } } |->
                    LET i == CHOOSE j \in 1..n : good(j) /\ SubSeq(e.parts[j], 1, 16) = k[2] IN << ds[i], e.pt >> ] @@ sent
PStep(e) ==
  CASE e.op = "p.new" -> PK!NewPke(e.o, e.n) /\ NoPanic /\ UNCHANGED << rng, drawn, sent >> /\ Keep
    [] e.op = "p.seed" -> /\ PK!Seed /\ NoPanic /\ Chk("ok", e.ok, TRUE) /\ UNCHANGED << drawn, sent >> /\ Keep
                          /\ rng' = [seed |-> e.data, log |-> << >>, us |-> {}]
    [] e.op = "p.enc" -> EncStep(e) /\ Keep
    [] e.op = "p.dec" -> DecStep(e) /\ Keep
    [] e.op = "p.menc" -> /\ IF e.pan /\ Len(e.pubs) > 0
                             THEN PK!MRefuse(e.o, e.pubs, e.c0, e.parts) /\ UNCHANGED << rng, drawn, sent >>
                             ELSE MEncStep(e)
                          /\ Keep
    [] e.op = "p.take" -> PK!SetCt(e.c, e.u, e.v) /\ NoPanic /\ UNCHANGED << rng, drawn, sent >> /\ Keep
                          /\ Chk("c0", e.u, pkes[e.o].c0)
                          /\ Chk("part", e.v, pkes[e.o].parts[e.i])
    [] e.op = "p.mut" -> PK!SetCt(e.c, e.u, e.v) /\ NoPanic /\ UNCHANGED << rng, drawn, sent >> /\ Keep
    [] e.op = "begin" -> Step(e) /\ pkes' = << >> /\ pcts' = << >> /\ rng' = [seed |-> << >>, log |-> << >>, us |-> {}] /\ drawn' = << >> /\ sent' = << >>
    [] OTHER -> Step(e) /\ NoPanic /\ UNCHANGED << pkes, pcts, rng, drawn, sent >>
PInit == Init /\ pkes = << >> /\ pcts = << >> /\ rng = [seed |-> << >>, log |-> << >>, us |-> {}] /\ drawn = << >> /\ sent = << >>
PNext == Consume /\ PStep(Ev)
PSpec == PInit /\ [][PNext]_pvars
=============================================================================
