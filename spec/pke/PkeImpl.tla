-------------------------------- MODULE PkeImpl --------------------------------
(* mkem's PKE as implemented: one hash object and, in the multi-recipient case, one secret
   buffer shared by all recipients.  The class group is Z/5 (keys and curves are numbers, 9 is
   an invalid curve), hashing is symbolic, xor is symbolic.  Whatever the history, every result
   equals the definition in PkeObj. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxRecipients,
          Lists            \* recipients lists tried
VARIABLES hash,            \* [sq, msg, off]: the SHAKE object
          parts, c0,       \* the parts of the multi-recipient object
          want,            \* what the parts must be
          okLast           \* the last call gave what it must
vars == << hash, parts, c0, want, okLast >>
G == 0..4
Bad == 9
Plain == {"m1", "m2"}
ActOf(u, s) == (u + s) % 5
Zero == << "zero" >>
(* ---- definition ---- *)
PadOf(ss) == << "pad", << ss >>, 0 >>
Xor(x, pad) == IF x[1] = "x" /\ x[3] = pad THEN x[2] ELSE << "x", x, pad >>
(* ---- the hash object ---- *)
HReset(h) == [sq |-> FALSE, msg |-> << >>, off |-> 0]
HWrite(h, d) == IF h.sq THEN h ELSE [h EXCEPT !.msg = Append(@, d)]
HRead(h) == [h EXCEPT !.sq = TRUE, !.off = @ + 16]
HOut(h) == << "pad", h.msg, h.off >>
(* one use: Reset, Write, Read; << hash object, pad >> *)
Use(h, ss) == LET a == HWrite(HReset(h), ss) IN << HRead(a), HOut(a) >>
(* the secret buffer: 64 bytes; after a use the first 16 are the pad *)
Whole(ss) == << "ss", ss >>
Stale(buf, pad) == << "mix", pad, buf >>
Derive(buf, u, s) == IF u = Bad THEN buf ELSE Whole(ActOf(u, s))

Init == /\ hash = [sq |-> FALSE, msg |-> << >>, off |-> 0]
        /\ parts = [i \in 1..MaxRecipients |-> << "none" >>] /\ c0 = 0
        /\ want = parts /\ okLast = TRUE
DoEnc(q, pt, eph) ==
  LET r == Use(hash, Derive(Zero, q, eph)) IN
  /\ hash' = r[1]
  /\ okLast' = (Xor(<< pt >>, r[2]) = Xor(<< pt >>, PadOf(Whole(ActOf(eph, q)))))
  /\ UNCHANGED << parts, c0, want >>
DoDec(sk, u, v) ==
  LET r == Use(hash, Derive(Zero, u, sk)) IN
  /\ hash' = r[1]
  /\ okLast' = (Xor(v, r[2]) = Xor(v, PadOf(Whole(ActOf(u, sk)))))
  /\ UNCHANGED << parts, c0, want >>
(* decrypting a part: the plaintext of the last encryption that wrote it *)
DoDecPart(i, q) ==
  /\ want[i][1] = "sent" /\ want[i][2] = q /\ want[i][4] = c0
  /\ LET r == Use(hash, Derive(Zero, c0, q)) IN
     /\ hash' = r[1] /\ okLast' = (Xor(parts[i], r[2]) = << want[i][3] >>)
  /\ UNCHANGED << parts, c0, want >>
RECURSIVE Loop(_, _, _, _, _, _)
Loop(h, buf, qs, i, pt, eph) ==
  IF i > Len(qs) THEN << h, << >> >>
  ELSE LET b == Derive(buf, qs[i], eph)
           r == Use(h, b)
           rest == Loop(r[1], Stale(b, r[2]), qs, i + 1, pt, eph)
       IN << rest[1], << Xor(<< pt >>, r[2]) >> \o rest[2] >>
DoMEnc(qs, pt, eph) ==
  LET r == Loop(hash, Zero, qs, 1, pt, eph) IN
  /\ hash' = r[1] /\ c0' = eph
  /\ parts' = [i \in DOMAIN parts |-> IF i <= Len(qs) THEN r[2][i] ELSE parts[i]]
  /\ want' = [i \in DOMAIN want |-> IF i <= Len(qs) THEN << "sent", qs[i], pt, eph >> ELSE want[i]]
  /\ okLast' = \A i \in DOMAIN qs : r[2][i] = Xor(<< pt >>, PadOf(Whole(ActOf(eph, qs[i]))))
Next == \/ \E q \in {1, 2}, pt \in Plain, eph \in {0, 1, 3} : DoEnc(q, pt, eph)
        \/ \E sk \in {1, 2}, u \in {0, 3}, v \in { << "x", << "m1" >>, PadOf(Whole(1)) >>, << "junk" >> } : DoDec(sk, u, v)
        \/ \E i \in DOMAIN parts, q \in {1, 2} : DoDecPart(i, q)
        \/ \E qs \in Lists, pt \in Plain, eph \in {0, 3} : DoMEnc(qs, pt, eph)
Spec == Init /\ [][Next]_vars
Right == okLast
SomeLists == UNION { [1..n -> {1, 2}] : n \in 0..3 }
MoreLists == UNION { [1..n -> {1, 2}] : n \in 0..4 }
=============================================================================
