-------------------------------- MODULE CpuGen --------------------------------
(* Processors to run the detection on: which leaves exist, the feature bits, everything else
   clear, set, or as in the neighbouring bits, and what missing leaves answer. *)
EXTENDS GenKit
G == {[max |-> m, a |-> a, b |-> b, noise |-> n, beyond |-> g] :
       m \in {0, 1, 2, 3, 5, 6, 7, 8, 13, 31}, a \in SUBSET {25}, b \in SUBSET {8, 18, 19},
       n \in {"clear", "set", "odd", "even"}, g \in {"clear", "set", "last"}}
Init == hist = << >>
Next == hist = << >> /\ \E p \in G : hist' = << [op |-> "cpu.sim", p |-> p] >>
Spec == Init /\ [][Next]_hist
=============================================================================
