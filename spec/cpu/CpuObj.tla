-------------------------------- MODULE CpuObj --------------------------------
(* Processor features.  A processor answers CPUID: leaf 0 gives the highest leaf (eax); for
   leaves up to it, registers are given as sets of the bits that are set; for leaves beyond it
   the answer means nothing (some processors repeat the data of their highest leaf, some give
   zeros), so a feature is present only if its leaf exists and its bit is set.
   Detection makes the reported features those the processor has. *)
EXTENDS Naturals, FiniteSets
Features == {"aes", "bmi2", "adx", "rdseed"}
(* Intel SDM vol. 2A, CPUID; AMD APM vol. 3, appendix E *)
Leaf(f) == IF f = "aes" THEN 1 ELSE 7
Reg(f) == IF f = "aes" THEN "ecx" ELSE "ebx"
Bit(f) == CASE f = "aes" -> 25 [] f = "bmi2" -> 8 [] f = "adx" -> 19 [] f = "rdseed" -> 18

(* p: [max, l1, l7 (subleaf 0), l7b (subleaf 1), beyond]; each leaf: register -> set of bits *)
Answer(p, leaf, sub) ==
  IF leaf > p.max THEN p.beyond
  ELSE CASE leaf = 1 -> p.l1
         [] leaf = 7 /\ sub = 0 -> p.l7
         [] leaf = 7 /\ sub # 0 -> p.l7b
         [] OTHER -> p.beyond
Present(p, f) == Leaf(f) <= p.max /\ Bit(f) \in Answer(p, Leaf(f), 0)[Reg(f)]
Has(p) == {f \in Features : Present(p, f)}

VARIABLES proc,      \* the processor
          reported   \* the features reported; "unknown" before detection
cvars == << proc, reported >>
Detect == reported' = Has(proc) /\ UNCHANGED proc
=============================================================================
