------------------------------- MODULE FrameImpl -------------------------------
(* How an object may treat its arguments, by Habit:
     "copy"     takes what it needs during the call, hands out copies
     "retain"   keeps an input slice and reads it when a result is asked for
     "pad"      pads its input with append, which writes behind it when there is capacity
     "expose"   hands out its own buffer
     "block"    writes results by whole blocks
     "borrow"   works in the output slice and leaves scratch in its spare capacity
     "inplace"  transforms its input where it lies
   Only the first (and Sum's append into spare capacity, which is documented) is right. *)
EXTENDS Naturals, Sequences
CONSTANTS N, Vals, Most, Habit, Steps
VARIABLES mem, got, late, buf, out, n, call
(* got: absorbed by value; late: an input that was retained (or no slice); buf: the object's
   buffer; out: results handed out: in fresh memory, or the object's own buffer *)
vars == << mem, got, late, buf, out, n, call >>
RECURSIVE SumOf(_)
SumOf(q) == IF q = << >> THEN 0 ELSE Head(q) + 2 * SumOf(Tail(q))
DigOf(q) == << SumOf(q) % 2, (Len(q) + SumOf(q)) % 2 >>
NoSlice == [at |-> 1, len |-> 0, cap |-> 0]
All == got \o [i \in 1..late.len |-> mem[late.at + i - 1]]
Obj == INSTANCE FrameObj WITH Dig <- DigOf, acc <- All,
         fresh <- [i \in 1..Len(out) |-> IF out[i].own THEN buf ELSE out[i].v]
Slices == Obj!Slices
Content(s) == Obj!Content(mem, s)
Put(m, at, v) == Obj!Put(m, at, v)
Init == /\ mem \in [1..N -> Vals] /\ got = << >> /\ late = NoSlice /\ buf = << >> /\ out = << >> /\ n = 0 /\ call = << >>
Tick(op, s) == n < Steps /\ n' = n + 1 /\ call' = << op, s >>
Absorb(s) ==
  /\ Tick("absorb", s) /\ Len(All) + s.len <= Most
  /\ IF Habit = "retain" /\ s.len > 0 THEN got' = All /\ late' = s
     ELSE got' = All \o Content(s) /\ late' = NoSlice
  /\ mem' = IF Habit = "pad" /\ s.cap > s.len THEN Put(mem, s.at + s.len, << 1 >>)
            ELSE IF Habit = "inplace" /\ s.len > 0 THEN Put(mem, s.at, [i \in 1..s.len |-> 1 - mem[s.at + i - 1]])
            ELSE mem
  /\ UNCHANGED << buf, out >>
Squeeze(s) ==
  /\ Tick("squeeze", s)
  /\ LET d == Obj!Stretch(DigOf(All), s.len)
         m == Put(mem, s.at, d)
     IN mem' = IF Habit = "block" /\ s.len = 1 /\ s.cap >= 2 THEN Put(mem, s.at, DigOf(All))
               ELSE IF Habit = "borrow" /\ s.cap > s.len THEN Put(m, s.at + s.len, << 0 >>)
               ELSE m
  /\ UNCHANGED << got, late, buf, out >>
Sum(s) ==
  /\ Tick("sum", s)
  /\ IF s.cap - s.len >= 2 THEN mem' = Put(mem, s.at + s.len, DigOf(All)) /\ UNCHANGED << buf, out >>
     ELSE /\ buf' = Content(s) \o DigOf(All)
          /\ out' = Append(out, [own |-> Habit = "expose", v |-> buf'])
          /\ UNCHANGED mem
  /\ UNCHANGED << got, late >>
Scribble(i, v) == Tick("caller", << i, v >>) /\ mem' = [mem EXCEPT ![i] = v] /\ UNCHANGED << got, late, buf, out >>
Next == \/ \E s \in Slices : Absorb(s) \/ Squeeze(s) \/ Sum(s)
        \/ \E i \in 1..N, v \in Vals : Scribble(i, v)
Spec == Init /\ [][Next]_vars
Refines == Obj!FSpec
=============================================================================
