------------------------------- MODULE CpuImpl -------------------------------
(* utils/cpuid_amd64.go: the queries and decisions of detection, and the choice of a back end
   that follows from it, over every processor of a small family.  Checked: what is reported is
   what the processor has, and a back end is chosen only if the processor has all it uses. *)
EXTENDS CpuObj, TLC
VARIABLES pc, max, flags, choice
vars == << cvars, pc, max, flags, choice >>
Rs == {"eax", "ebx", "ecx", "edx"}
All == 0..31
(* the bits that matter, and the rest all clear or all set *)
Regs(on, noise, reg, rel) == [r \in Rs |-> IF r = reg THEN on \cup (IF noise THEN All \ rel ELSE {}) ELSE IF noise THEN All ELSE {}]
Procs == {[max |-> m, l1 |-> Regs(a, n, "ecx", {25}), l7 |-> Regs(b, n, "ebx", {8, 18, 19}), l7b |-> Regs({}, g, "eax", {}),
           beyond |-> Regs({}, g, "eax", {})] :
            m \in {0, 1, 2, 6, 7, 13}, a \in SUBSET {25}, b \in SUBSET {8, 18, 19}, n \in BOOLEAN, g \in BOOLEAN}
Init == proc \in Procs /\ reported = {"unknown"} /\ pc = "leaf0" /\ max = 0 /\ flags = {} /\ choice = << >>
Stay == UNCHANGED << proc, reported, choice >>
L0 == pc = "leaf0" /\ max' = proc.max /\ pc' = (IF proc.max < 1 THEN "done" ELSE "leaf1") /\ Stay /\ UNCHANGED flags
L1 == pc = "leaf1" /\ flags' = (IF 25 \in Answer(proc, 1, 0).ecx THEN {"aes"} ELSE {})
      /\ pc' = (IF max < 7 THEN "done" ELSE "leaf7") /\ Stay /\ UNCHANGED max
L7 == pc = "leaf7" /\ LET e == Answer(proc, 7, 0).ebx IN
        flags' = flags \cup (IF 8 \in e THEN {"bmi2"} ELSE {}) \cup (IF 19 \in e THEN {"adx"} ELSE {}) \cup (IF 18 \in e THEN {"rdseed"} ELSE {})
      /\ pc' = "done" /\ Stay /\ UNCHANGED max
Done == pc = "done" /\ reported' = flags /\ pc' = "select" /\ UNCHANGED << proc, max, flags, choice >>
(* the dispatch of drbg, the field code of sidh and csidh *)
Select == /\ pc = "select" /\ pc' = "end"
          /\ choice' = [drbg |-> IF "aes" \in reported THEN "aesni" ELSE "tables",
                        csidh |-> IF {"bmi2", "adx"} \subseteq reported THEN "mulx adx" ELSE "mul",
                        csidhw |-> IF "bmi2" \in reported THEN "mulx" ELSE "mul",
                        sidh |-> IF {"bmi2", "adx"} \subseteq reported THEN "mulx adx" ELSE IF "bmi2" \in reported THEN "mulx" ELSE "mul"]
          /\ UNCHANGED << cvars, max, flags >>
Next == L0 \/ L1 \/ L7 \/ Done \/ Select
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Abs == INSTANCE CpuObj
Refines == [][Abs!Detect]_cvars
Uses(b) == CASE b = "aesni" -> {"aes"} [] b = "mulx adx" -> {"bmi2", "adx"} [] b = "mulx" -> {"bmi2"} [] OTHER -> {}
Runs == choice # << >> => \A k \in DOMAIN choice : Uses(choice[k]) \subseteq Has(proc)
Detected == <>(reported = Has(proc))
=============================================================================
