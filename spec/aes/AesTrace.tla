------------------------------- MODULE AesTrace -------------------------------
(* Validation of traces of the AES back ends against AesObj with FIPS 197. *)
EXTENDS AesObj, AesFn, TraceKit
tvars == << aes, reply, l >>
TrValid(k) == Len(k) \in {16, 24, 32}
TrEnc(k, b) == TLCEval(AesEnc(k, b))
TrDec(k, b) == TLCEval(AesDec(k, b))

CryptStep(e) ==
  IF Len(e.src) < 16 \/ e.dlen < 16
  THEN Refuse(e.o) /\ Chk("refused", e.pan, TRUE)
  ELSE /\ Chk("panic", e.pan, FALSE)
       /\ Crypt(e.o, e.dir, SubSeq(e.src, 1, 16))
       /\ Chk("block", e.out, reply'.out)

Step(e) ==
  CASE e.op = "begin" -> aes' = << >> /\ reply' = [call |-> "begin"]
    [] e.op = "a.new" -> New(e.o, e.kind) /\ NoPanic
    [] e.op = "a.key" -> SetKey(e.o, e.key) /\ NoPanic /\ Chk("err", e.err, reply'.err)
    [] e.op = "a.crypt" -> CryptStep(e)

Init == AInit /\ l = 1
Next == Consume /\ Chk("frame", IF Ev.op = "begin" THEN << >> ELSE Ev.fr, << >>) /\ Step(Ev)
Spec == Init /\ [][Next]_tvars
=============================================================================
