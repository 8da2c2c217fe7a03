------------------------------- MODULE SidhTrace -------------------------------
(* Validation of traces of SIDH/SIKE keys and KEM objects against KemObj with the SIKE
   specification (SidhFn).  Also kept: the secrets that were derived, by the set of the two
   private keys involved - both parties must get the same one. *)
EXTENDS KemObj, SidhFn, TraceKit, Integers
VARIABLES src,     \* public key object -> the private key its value was generated from
          agreed,  \* {pair of private keys} -> secret derived from it
          sent     \* << public key, ciphertext >> -> [ss, m]: the secret encapsulated, its message
tvars == << keys, reply, kems, src, agreed, sent, l >>

TrPub(f, side, k) == TLCEval(PubKey(f, side, k))
TrShared(f, side, k, pk) == TLCEval(Shared(f, side, k, pk))
(* clear what lies beyond the key's bit length, set its top bit *)
TrClamp(f, v, b) ==
  LET n == KeyBits(f, SideOf(v))  t == (n - 1) \div 8  r == (n - 1) % 8 IN
  TLCEval([i \in 1..Len(b) |-> IF i - 1 > t THEN 0
                               ELSE IF i - 1 = t THEN (b[i] % (2^r)) + 2^r ELSE b[i]])
TrSLen(f, v) == IF v = "S" THEN MsgLen(f) ELSE 0
TrValLen(f, v, kind) == IF kind = "pub" THEN PkSize(f) ELSE KeyBytes(f, SideOf(v))
TrUnknown == << >>
TrLen(b) == Len(b)
TrJoin(a, b) == a \o b
TrCut(b, i, j) == SubSeq(b, i + 1, j)
TrEncaps(f, pk, m) == TLCEval(SikeEncaps(f, pk, m))
TrDecaps(f, s, sk, pk, ct) == TLCEval(SikeDecaps(f, s, sk, pk, ct))

KEEP == UNCHANGED << kems, src, agreed, sent >>
VNum(v) == CASE v = "A" -> 1 [] v = "B" -> 2 [] v = "S" -> 6

Fn(f, k, v) == (k :> v) @@ f
Secret(p, q) == { << keys[p].f, keys[p].v = "A", keys[p].val >>, src[q] }

DeriveStep(e) ==
  /\ Derive(e.prv, e.pub, e.outlen)
  /\ UNCHANGED << kems, src, sent >>
  /\ IF reply'.call = "refused"
     THEN /\ Chk("refused", e.pan, TRUE) /\ Chk("untouched", e.touched, FALSE) /\ UNCHANGED agreed
     ELSE /\ Chk("panic", e.pan, FALSE)
          /\ Chk("secret", e.out, reply'.out)
          /\ IF e.pub \in DOMAIN src
             THEN /\ IF Secret(e.prv, e.pub) \in DOMAIN agreed
                     THEN Chk("agreement", e.out, agreed[Secret(e.prv, e.pub)]) ELSE TRUE
                  /\ agreed' = Fn(agreed, Secret(e.prv, e.pub), e.out)
             ELSE UNCHANGED agreed

EncStep(e) ==
  LET f == kems[e.o].f
      need == IF kems[e.o].alloc THEN f ELSE keys[e.pub].f
  IN /\ Encapsulate(e.o, e.pub, e.rng, CtLen(need) + e.ctx, SsLen(need) + e.ssx)
     /\ UNCHANGED << src, agreed >>
     /\ CASE reply'.call = "refused" ->
               /\ Chk("refused", e.pan, TRUE) /\ Chk("untouched", << e.tct, e.tss >>, << FALSE, FALSE >>)
               /\ UNCHANGED sent
          [] reply'.call = "encaps" /\ reply'.err ->
               /\ Chk("panic", e.pan, FALSE) /\ Chk("err", e.err, TRUE)
               /\ Chk("untouched", << e.tct, e.tss >>, << FALSE, FALSE >>)
               /\ Chk("taken", e.taken, reply'.taken)
               /\ UNCHANGED sent
          [] OTHER ->
               /\ Chk("panic", e.pan, FALSE) /\ Chk("err", e.err, FALSE)
               /\ Chk("ct", e.ct, reply'.ct) /\ Chk("ss", e.ss, reply'.ss)
               /\ Chk("taken", e.taken, reply'.taken)
               /\ sent' = Fn(sent, << keys[e.pub].val, e.ct >>, [ss |-> e.ss, m |-> SubSeq(e.rng, 1, MsgLen(f))])
(* the key pair fits the public key a ciphertext was made for *)
DecStep(e) ==
  /\ Decapsulate(e.o, e.prv, e.pub, e.ct, SsLen(keys[e.prv].f) + e.ssx)
  /\ UNCHANGED << src, agreed, sent >>
  /\ IF reply'.call = "refused"
     THEN Chk("refused", e.pan, TRUE) /\ Chk("untouched", e.tss, FALSE)
     ELSE /\ Chk("panic", e.pan, FALSE) /\ Chk("err", e.err, FALSE)
          /\ Chk("ss", e.ss, reply'.ss)
          /\ LET mine == << keys[e.pub].val, e.ct >>
                 pair == e.pub \in DOMAIN src /\ src[e.pub] = << keys[e.prv].f, FALSE, keys[e.prv].val >>
             IN IF mine \in DOMAIN sent /\ pair
                THEN Chk("agreement", e.ss, sent[mine].ss)
                \* any other ciphertext gives none of the secrets that were encapsulated (unless S
                \* happens to be the message)
                ELSE Chk("foreign secret", \E x \in DOMAIN sent : sent[x].ss = e.ss /\ sent[x].m # keys[e.prv].s, FALSE)

Step(e) ==
  CASE e.op = "begin" -> /\ keys' = << >> /\ kems' = << >> /\ src' = << >> /\ agreed' = << >> /\ sent' = << >>
                         /\ reply' = [call |-> "begin"]
    [] e.op = "k.prv" -> NewKey(e.o, "prv", e.f, e.v) /\ NoPanic /\ KEEP
    [] e.op = "k.pub" -> /\ NewKey(e.o, "pub", e.f, e.v) /\ NoPanic /\ UNCHANGED << kems, agreed, sent >>
                         /\ src' = [x \in DOMAIN src \ {e.o} |-> src[x]]
    [] e.op = "k.init" -> /\ InitKey(e.o, e.f, e.v) /\ NoPanic /\ UNCHANGED << kems, agreed, sent >>
                          /\ src' = [x \in DOMAIN src \ {e.o} |-> src[x]]
    [] e.op = "k.imp" -> /\ Import(e.o, e.data) /\ NoPanic /\ Chk("err", e.err, reply'.err)
                         /\ UNCHANGED << kems, agreed, sent >>
                         /\ src' = IF reply'.err THEN src ELSE [x \in DOMAIN src \ {e.o} |-> src[x]]
    [] e.op = "k.move" -> /\ Chk("exported", e.data, Bytes0(keys[e.from]))
                          /\ Import(e.o, e.data) /\ NoPanic /\ Chk("err", e.err, reply'.err)
                          /\ UNCHANGED << kems, agreed, sent >>
                          /\ src' = IF reply'.err THEN src
                                    ELSE IF e.from \in DOMAIN src THEN Fn(src, e.o, src[e.from])
                                    ELSE [x \in DOMAIN src \ {e.o} |-> src[x]]
    [] e.op = "k.exp" -> /\ Export(e.o) /\ NoPanic /\ KEEP
                         /\ Chk("size", e.size, KeyLen(keys[e.o])) /\ Chk("out", e.out, reply'.out)
    [] e.op = "k.sizes" -> /\ UNCHANGED keys /\ reply' = [call |-> "sizes"] /\ NoPanic /\ KEEP
                           /\ LET k == keys[e.o] IN
                              Chk("sizes", << e.size, e.ss, e.v >>,
                                  << KeyLen(k), IF k.kind = "prv" THEN SecretLen(k.f) ELSE 0, VNum(k.v) >>)
    [] e.op = "k.gen" -> /\ Generate(e.o, e.rng) /\ NoPanic /\ KEEP
                         /\ IF e.alt THEN TRUE ELSE Chk("err", e.err, reply'.err)
                         /\ Chk("taken", e.taken, reply'.taken)
    [] e.op = "k.pubgen" -> /\ PublicKey(e.prv, e.pub) /\ UNCHANGED << kems, agreed, sent >>
                            /\ Chk("panic", e.pan, reply'.call = "refused")
                            /\ src' = IF reply'.call = "refused" THEN src
                                      ELSE Fn(src, e.pub, << keys[e.prv].f, keys[e.prv].v = "A", keys[e.prv].val >>)
    [] e.op = "k.derive" -> DeriveStep(e)
    [] e.op = "e.new" -> NewKem(e.o, e.mk # "sidh0" /\ e.mk # "mkem0", e.f) /\ NoPanic /\ UNCHANGED << src, agreed, sent >>
    [] e.op = "e.alloc" -> Allocate(e.o, e.f) /\ NoPanic /\ UNCHANGED << src, agreed, sent >>
    [] e.op = "e.reset" -> Reset(e.o) /\ NoPanic /\ UNCHANGED << src, agreed, sent >>
    [] e.op = "e.sizes" -> /\ Sizes(e.o) /\ NoPanic /\ UNCHANGED << src, agreed, sent >>
                           /\ Chk("sizes", << e.ct, e.ss >>, << reply'.ct, reply'.ss >>)
                           /\ IF e.more = << >> THEN TRUE
                              ELSE Chk("more", e.more, << SsLen(kems[e.o].f), PkSize(kems[e.o].f) >>)
    [] e.op = "e.enc" -> EncStep(e)
    [] e.op = "e.dec" -> DecStep(e)

Init == MInit /\ src = << >> /\ agreed = << >> /\ sent = << >> /\ l = 1
Next == Consume /\ Step(Ev)
Spec == Init /\ [][Next]_tvars
=============================================================================
