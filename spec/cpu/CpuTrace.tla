------------------------------- MODULE CpuTrace -------------------------------
(* cpu.sim: the detection ran on a simulated processor, given by the answers to the queries
   (registers as lists of bits).  cpu.real: the features reported on this machine, and those the
   operating system lists for its processors. *)
EXTENDS CpuObj, TraceKit
tvars == << cvars, l >>
At == l
Bits(s) == {s[i] : i \in 1..Len(s)}
Regs(x) == [r \in {"eax", "ebx", "ecx", "edx"} |-> Bits(x[r])]
ProcOf(e) == [max |-> e.max, l1 |-> Regs(e.l1), l7 |-> Regs(e.l7), l7b |-> Regs(e.l7b), beyond |-> Regs(e.beyond)]
Rep(e) == {e.rep[i] : i \in 1..Len(e.rep)}
Step(e) ==
  CASE e.op = "begin" -> proc' = << >> /\ reported' = {"unknown"}
    [] e.op = "cpu.sim" -> /\ proc' = ProcOf(e) /\ reported' = Rep(e)
                           /\ Chk("reported", reported', Has(proc'))
    [] e.op = "cpu.real" -> /\ UNCHANGED proc /\ reported' = Rep(e)
                            /\ Chk("reported", reported', {e.os[i] : i \in 1..Len(e.os)} \cap Features)
Init == proc = << >> /\ reported = {"unknown"} /\ l = 1
Next == Consume /\ NoPanic /\ Step(Ev)
Spec == Init /\ [][Next]_tvars
=============================================================================
