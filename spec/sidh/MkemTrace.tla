------------------------------- MODULE MkemTrace -------------------------------
(* Validation of traces of multi-recipient KEM objects (together with keys and
   single-recipient objects, which SidhTrace handles). *)
EXTENDS SidhTrace
VARIABLES mks,
          msent     \* << ct0, part, public key >> -> [ss, m]
mvars == << tvars, mks, msent >>
K == INSTANCE MkemObj WITH MEncFn <- MkemEncaps, MDecFn <- MkemDecaps, MMsgLen <- MsgLen, MZero <- MkemZero

MKeep == UNCHANGED << kems, src, agreed, sent >>
MEncStep(e) ==
  LET f == mks[e.o].f IN
  /\ K!MEncaps(e.o, e.pubs, e.rng, e.sslen)
  /\ IF reply'.call = "refused"
     THEN Chk("refused", e.pan, TRUE) /\ Chk("untouched", e.tss, FALSE) /\ UNCHANGED msent
     ELSE /\ Chk("panic", e.pan, FALSE) /\ Chk("err", e.err, reply'.err) /\ Chk("taken", e.taken, reply'.taken)
          /\ IF reply'.err THEN Chk("untouched", e.tss, FALSE) /\ UNCHANGED msent
             ELSE /\ Chk("ct0", e.ct0, reply'.ct0)
                  /\ Chk("parts", e.cts, reply'.cts)
                  /\ Chk("ss", e.ss, reply'.ss)
                  /\ msent' = [ x \in { << e.ct0, e.cts[i], keys[e.pubs[i]].val >> : i \in DOMAIN e.pubs }
                                  |-> [ss |-> e.ss, m |-> SubSeq(e.rng, 1, MsgLen(f))] ] @@ msent
MDecStep(e) ==
  /\ K!MDecaps(e.o, e.prv, e.pub, e.ct, e.sslen) /\ UNCHANGED msent
  /\ IF reply'.call = "refused"
     THEN Chk("refused", e.pan, TRUE) /\ Chk("untouched", e.tss, FALSE)
     ELSE /\ Chk("panic", e.pan, FALSE) /\ Chk("err", e.err, FALSE)
          /\ Chk("ss", e.ss, reply'.ss)
          /\ LET mine == << mks[e.o].ct0, e.ct, keys[e.pub].val >>
                 pair == e.pub \in DOMAIN src /\ src[e.pub] = << keys[e.prv].f, FALSE, keys[e.prv].val >>
             IN IF mine \in DOMAIN msent /\ pair THEN Chk("agreement", e.ss, msent[mine].ss)
                ELSE Chk("foreign secret", \E x \in DOMAIN msent : msent[x].ss = e.ss /\ msent[x].m # keys[e.prv].s, FALSE)
MStep(e) ==
  CASE e.op = "m.new" -> K!NewMk(e.o, e.alloc, e.f, e.n) /\ NoPanic /\ UNCHANGED msent /\ MKeep
    [] e.op = "m.alloc" -> K!MAllocate(e.o, e.f, e.n) /\ NoPanic /\ UNCHANGED msent /\ MKeep
    [] e.op = "m.reset" -> K!MReset(e.o) /\ NoPanic /\ UNCHANGED msent /\ MKeep
    [] e.op = "m.sizes" -> /\ UNCHANGED << keys, mks, msent >> /\ reply' = [call |-> "sizes"] /\ NoPanic /\ MKeep
                           /\ LET f == mks[e.o].f IN
                              Chk("sizes", e.sizes, << CtSize(f), MsgLen(f), MsgLen(f), PkSize(f) >>)
    [] e.op = "m.tamper" -> K!MTamper(e.o, e.ct0) /\ NoPanic /\ UNCHANGED msent /\ MKeep
    [] e.op = "m.enc" -> MEncStep(e) /\ MKeep
    [] e.op = "m.dec" -> MDecStep(e) /\ MKeep
    [] e.op = "begin" -> Step(e) /\ mks' = << >> /\ msent' = << >>
    [] OTHER -> Step(e) /\ UNCHANGED << mks, msent >>
MkInit == Init /\ mks = << >> /\ msent = << >>
MkNext == Consume /\ MStep(Ev)
MkSpec == MkInit /\ [][MkNext]_mvars
=============================================================================
