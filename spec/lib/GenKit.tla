-------------------------------- MODULE GenKit --------------------------------
(* History variable and printing of generated scripts. *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT Depth
VARIABLE hist

Log(rec) == Len(hist) < Depth /\ hist' = Append(hist, rec)
(* INVARIANT in simulation: print every history that reached the depth *)
EmitAtDepth == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
(* ACTION_CONSTRAINT in breadth-first runs with a VIEW: print one history per transition
   of the quotient graph *)
EmitTransition == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
