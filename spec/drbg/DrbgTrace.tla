------------------------------- MODULE DrbgTrace -------------------------------
(* Validation of DRBG traces.  Aspects:
     values   outputs, lengths and results are those of SP 800-90A        (C06)
     fresh    no block is encrypted twice under one key within an instantiation; short
              entropy is refused and leaves the working state unchanged  (C07)
   For `fresh' the events carry the block cipher calls of the operation (a spy around the
   object's cipher); without the spy, the blocks are those the contract implies. *)
EXTENDS DrbgObj, CtrDrbgFn, TraceKit, FiniteSets

TrEnough(e) == Len(e) >= 32
TrReseed(st, e, a) == TLCEval(ReseedFn(st, e, a))
TrInst(e, p) == TLCEval(Instantiate(e, p))
TrGen(st, n, ad) == TLCEval(GenerateFn(st, n, ad))

VARIABLES used,     \* object -> set of <<key, counter>> encrypted since Init
          good,     \* object -> number of outputs since Init that agreed with the contract
          refused   \* objects that refused an Init after their last agreeing output
tvars == << drbg, reply, l, used, good, refused >>

(* calls: the spy's log; prev: blocks already used.  Under one key every counter is the one
   before plus one, modulo 2^128: that is why no run, however long, can repeat one. *)
Steps(calls) == \A i \in 2..Len(calls) : calls[i][1] = calls[i - 1][1] => calls[i][2] = IncV(calls[i - 1][2])
FreshCalls(e, prev) ==
  IF e.seen /\ Watch("fresh")
  THEN /\ Chk("counter steps", Steps(e.calls), TRUE)
       /\ Chk("repeated block", Cardinality(Range(e.calls)) = Len(e.calls) /\ Range(e.calls) \cap prev = {}, TRUE)
  ELSE TRUE
Add(e, prev) == IF e.seen /\ Watch("fresh") THEN prev \cup Range(e.calls) ELSE prev

New_(e) ==
  /\ New(e.o)
  /\ used' = (e.o :> {}) @@ used /\ good' = (e.o :> 0) @@ good
  /\ refused' = refused \ {e.o}

Accept(o, ent, pers) ==
  /\ drbg' = [drbg EXCEPT ![o] = Live(TrInst(ent, pers))]
  /\ reply' = [call |-> "init", ok |-> TRUE]
InitStep(e) ==
  LET first == ~ drbg[e.o].live /\ ~ TrEnough(e.ent) /\ e.ok /\ "drbg-first-init-short" \in KnownTags
  IN /\ IF first THEN InitAcceptsAnything(e.o, e.ent, e.pers) /\ Known("drbg-first-init-short")
        ELSE IF e.ok /\ ~ TrEnough(e.ent) /\ ~ Watch("fresh")
        THEN Accept(e.o, e.ent, e.pers)      \* whether it should have is for C07 to say
        ELSE Init_(e.o, e.ent, e.pers)
     /\ Chk("ok", e.ok, reply'.ok)
     /\ IF reply'.ok THEN FreshCalls(e, {}) /\ used' = [used EXCEPT ![e.o] = Add(e, {})]
                          /\ good' = [good EXCEPT ![e.o] = 0] /\ refused' = refused \ {e.o}
        ELSE /\ UNCHANGED << used, good >>
             /\ refused' = IF good[e.o] > 0 THEN refused \cup {e.o} ELSE refused

ReseedStep(e) ==
  /\ Reseed(e.o, e.ent, e.ad)
  /\ FreshCalls(e, used[e.o])
  /\ used' = [used EXCEPT ![e.o] = Add(e, @)]
  /\ UNCHANGED << good, refused >>

GenStep(e) ==
  /\ Generate(e.o, e.n, e.ad)
  /\ Sees("values", "n", e.rn, reply'.n)
  /\ Sees("values", "err", e.err, reply'.err)
  /\ Sees("values", "out", e.out, reply'.out)
  /\ IF e.o \in refused /\ Watch("fresh") THEN Chk("state after refusal", e.out, reply'.out) ELSE TRUE
  /\ FreshCalls(e, used[e.o])
  /\ used' = [used EXCEPT ![e.o] = Add(e, @)]
  /\ good' = [good EXCEPT ![e.o] = IF e.out = reply'.out THEN @ + 1 ELSE 0]
  /\ refused' = refused \ {e.o}

Step(e) ==
  CASE e.op = "begin" -> /\ drbg' = << >> /\ reply' = [call |-> "begin"]
                         /\ used' = << >> /\ good' = << >> /\ refused' = {}
    [] e.op = "d.new" -> New_(e)
    [] e.op = "d.init" -> InitStep(e)
    [] e.op = "d.reseed" -> ReseedStep(e)
    [] e.op = "d.gen" -> GenStep(e)

Init == DInit /\ l = 1 /\ used = << >> /\ good = << >> /\ refused = {}
Next == Consume /\ NoPanic /\ Step(Ev)
Spec == Init /\ [][Next]_tvars
=============================================================================
