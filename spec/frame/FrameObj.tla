------------------------------- MODULE FrameObj -------------------------------
(* Calls and the caller's memory.  Memory is an arena of cells; arguments are slices of it
   (first cell, length, capacity).  A call reads its inputs while it runs, changes only the
   cells of its documented output, and what it hands out as a fresh value never changes again.
   The caller may write its memory between calls as it likes. *)
EXTENDS Naturals, Sequences
CONSTANTS N, Vals, Most,                 \* cells, cell values, longest absorbed input
          Dig(_)                         \* absorbed values -> digest (a sequence of DLen values)
DLen == 2
VARIABLES mem, acc, fresh,               \* fresh: values handed out in memory of their own
          call                           \* the last call and its slice
fvars == << mem, acc, fresh, call >>
Slices == { s \in [at : 1..N, len : 0..N, cap : 0..N] : s.len <= s.cap /\ s.at + s.cap <= N + 1 }
Content(m, s) == [i \in 1..s.len |-> m[s.at + i - 1]]
Put(m, at, v) == [i \in 1..N |-> IF i >= at /\ i < at + Len(v) THEN v[i - at + 1] ELSE m[i]]
(* as much of the digest as fits, repeated *)
Stretch(d, n) == [i \in 1..n |-> d[((i - 1) % DLen) + 1]]
FInit == mem \in [1..N -> Vals] /\ acc = << >> /\ fresh = << >> /\ call = << >>
Made(op, s) == call' = << op, s >>
Absorb(s) == /\ Made("absorb", s)
             /\ acc' = acc \o Content(mem, s) /\ Len(acc') <= Most
             /\ UNCHANGED << mem, fresh >>
Squeeze(s) == Made("squeeze", s) /\ mem' = Put(mem, s.at, Stretch(Dig(acc), s.len)) /\ UNCHANGED << acc, fresh >>
(* appends: in place when there is room, otherwise in fresh memory *)
SumIn(s) == /\ Made("sum", s)
            /\ s.cap - s.len >= DLen
            /\ mem' = Put(mem, s.at + s.len, Dig(acc)) /\ UNCHANGED << acc, fresh >>
SumNew(s) == /\ Made("sum", s)
             /\ s.cap - s.len < DLen
             /\ fresh' = Append(fresh, Content(mem, s) \o Dig(acc)) /\ UNCHANGED << mem, acc >>
Scribble(i, v) == Made("caller", << i, v >>) /\ mem' = [mem EXCEPT ![i] = v] /\ UNCHANGED << acc, fresh >>
FNext == \/ \E s \in Slices : Absorb(s) \/ Squeeze(s) \/ SumIn(s) \/ SumNew(s)
         \/ \E i \in 1..N, v \in Vals : Scribble(i, v)
FSpec == FInit /\ [][FNext]_fvars
=============================================================================
