-------------------------------- MODULE AesImpl --------------------------------
(* Key schedules as the two back ends keep them: arrays sized for the longest key, of which
   a shorter key uses a prefix; the table based back end clears them first, the hardware one
   does not; the decryption schedule is derived from the encryption schedule in reverse.  A
   cell is the term <<"rk", key, i>>; a block function is the sequence of cells it uses.
   Checked: both refine AesObj, whatever keys were set before. *)
EXTENDS AesObj, FiniteSets
CONSTANTS Kinds, Keys, Blocks, MaxRounds
VARIABLES enc, dec, nr, kindOf
ivars == << aes, reply, enc, dec, nr, kindOf >>

(* keys are <<name, rounds>>; rounds 0 stands for an unsupported length *)
McValid(k) == k[2] > 0
Sched(k) == [i \in 0..k[2] |-> << "rk", k[1], i >>]
Rev(k) == [i \in 0..k[2] |-> << "rk'", k[1], k[2] - i >>]
McEnc(k, b) == << [i \in 1..(k[2] + 1) |-> Sched(k)[i - 1]], b >>
McDec(k, b) == << [i \in 1..(k[2] + 1) |-> Rev(k)[i - 1]], b >>

Empty == [i \in 0..MaxRounds |-> << "0" >>]
Init == AInit /\ enc = << >> /\ dec = << >> /\ nr = << >> /\ kindOf = << >>
INew(o, kind) == /\ o \notin DOMAIN aes /\ New(o, kind)
  /\ enc' = (o :> Empty) @@ enc /\ dec' = (o :> Empty) @@ dec /\ nr' = (o :> 0) @@ nr
  /\ kindOf' = (o :> kind) @@ kindOf
Fill(old, s, r) == [i \in 0..MaxRounds |-> IF i <= r THEN s[i] ELSE old[i]]
ISetKey(o, k) ==
  /\ SetKey(o, k)
  /\ IF k[2] = 0 THEN UNCHANGED << enc, dec, nr >>
     ELSE LET e0 == IF kindOf[o] = "go" THEN Empty ELSE enc[o]
              d0 == IF kindOf[o] = "go" THEN Empty ELSE dec[o]
              e1 == Fill(e0, Sched(k), k[2])
          IN /\ enc' = [enc EXCEPT ![o] = e1]
             /\ dec' = [dec EXCEPT ![o] = Fill(d0, [i \in 0..k[2] |-> << "rk'", e1[k[2] - i][2], e1[k[2] - i][3] >>], k[2])]
             /\ nr' = [nr EXCEPT ![o] = k[2]]
  /\ UNCHANGED kindOf
ICrypt(o, dir, b) == Crypt(o, dir, b) /\ UNCHANGED << enc, dec, nr, kindOf >>
Next == \/ \E o \in {"a", "b"}, kind \in Kinds : INew(o, kind)
        \/ \E o \in DOMAIN aes : \/ \E k \in Keys : ISetKey(o, k)
                                 \/ \E d \in {"enc", "dec"}, b \in Blocks : ICrypt(o, d, b)
Spec == Init /\ [][Next]_ivars

(* what the schedules make of a block *)
Uses(o, s, b) == << [i \in 1..(nr[o] + 1) |-> s[i - 1]], b >>
SchedulesRight == \A o \in DOMAIN aes : aes[o].set =>
   \A b \in Blocks : /\ Uses(o, enc[o], b) = McEnc(aes[o].key, b)
                     /\ Uses(o, dec[o], b) = McDec(aes[o].key, b)
McKeys == { << "k1", 2 >>, << "k2", 3 >>, << "k3", 4 >>, << "k4", 4 >>, << "bad", 0 >> }
=============================================================================
