------------------------------- MODULE SameTrace -------------------------------
(* Histories that must look alike.  A trace consists of groups; a group is a reference
   history (begin with ref = TRUE) followed by any number of other recordings of the same
   calls, made under circumstances that must not matter: other threads at work, other
   schedules, other processor features, other layouts of the caller's memory.  Events carry a
   digest of what was observed, v; each must be what the reference shows at the same place,
   and a recording ends where the reference ends. *)
EXTENDS TraceKit
VARIABLES base,       \* where the reference begins
          start       \* where the current recording begins
vars == << l, base, start >>
Was == Log[base + (l - start)]
IsRef == start = base
Init == l = 1 /\ base = 1 /\ start = 1
Begin == /\ Ev.op = "begin"
         /\ start' = l
         /\ base' = IF Ev.ref THEN l ELSE base
         /\ IF Ev.ref THEN TRUE ELSE Chk("group", Ev.key, Log[base].key)
Call == /\ Ev.op = "call"
        /\ IF IsRef THEN TRUE
           ELSE /\ Chk("length", Was.op, "call")
                \* a routine need not exist in every build
                /\ IF "absent" \in {Ev.k, Was.k} THEN TRUE
                   ELSE Chk("call", Ev.k, Was.k) /\ Chk("alike", Ev.v, Was.v)
        /\ UNCHANGED << base, start >>
End == /\ Ev.op = "end"
       /\ IF IsRef THEN TRUE ELSE Chk("length", Was.op, "end")
       /\ UNCHANGED << base, start >>
Next == Consume /\ (Begin \/ Call \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
