------------------------------- MODULE CourseImpl -------------------------------
(* The secret-dependent parts of SIDH and SIKE as programs: the three-point ladder over the
   bits of a scalar (P + [k]Q), the walk along the isogenies whose strategy is fixed, and the
   implicit rejection of a decapsulation: re-encrypt, compare, select.  Two runs of one shape
   with different secrets go in step; twin is the other run.  Habit is how the program is
   written:
     "mask"    swaps and selects with masks, compares to the end
     "branch"  swaps only where neighbouring bits differ
     "skip"    starts the ladder at the highest bit that is set
     "early"   leaves the comparison at the first difference
     "pick"    hashes the rejection value in a branch of its own
     "bail"    leaves out the walk when the scalar is zero
   All of them return the specified values; only the first keeps to a course its shape settles. *)
EXTENDS Naturals, Sequences
CONSTANTS N, B, M, Habit
VARIABLES shape, one, two
vars == << shape, one, two >>
Bits == [1..N -> 0..1]
Bytes == [1..B -> 0..1]
RECURSIVE Num(_, _)
Num(k, i) == IF i > N THEN 0 ELSE k[i] + 2 * Num(k, i + 1)
Top(k) == IF \A i \in 1..N : k[i] = 0 THEN 0 ELSE CHOOSE i \in 1..N : k[i] = 1 /\ \A j \in (i+1)..N : k[j] = 0
\* points are numbers modulo M: P = 1, Q = 3
P == 1
Q == 3
\* a secret: scalar, what re-encryption gives, message and rejection value
Secrets == [k : Bits, re : Bytes]
Ct == [i \in 1..B |-> 0]       \* the ciphertext handed in, public
Value(sh, s) == LET pt == (P + Num(s.k, 1) * Q) % M
                IN IF sh = "derive" THEN << "point", pt >>
                   ELSE << IF s.re = Ct THEN "message" ELSE "rejection", pt >>
Start(s) == [sec |-> s, pc |-> "ladder", i |-> 1, r |-> << Q, P, (Q - P) % M >>, prev |-> 0,
             diff |-> 0, course |-> << >>, res |-> "none"]
Init == /\ shape \in {"derive", "decaps"}
        /\ \E s, t \in Secrets : one = Start(s) /\ two = Start(t)
Put(c, st) == Append(c, st)
Last(s) == IF Habit = "skip" THEN Top(s.sec.k) ELSE N
\* r = << 2^i Q, P + (k mod 2^i) Q, their difference >>: the pair to add is selected by the bit
Ladder(s) ==
  IF s.i > Last(s) THEN [s EXCEPT !.pc = "walk", !.i = 1, !.course = Put(@, "ladder done")]
  ELSE LET b == s.sec.k[s.i]
           st == IF Habit = "branch" /\ b = s.prev THEN "double and add" ELSE "swap, double and add"
           r2 == << (2 * s.r[1]) % M, IF b = 1 THEN (s.r[1] + s.r[2]) % M ELSE s.r[2],
                    IF b = 1 THEN s.r[3] ELSE (s.r[3] + s.r[1]) % M >>
       IN [s EXCEPT !.i = @ + 1, !.r = r2, !.prev = b, !.course = Put(@, st)]
Walk(s) ==
  IF s.i > N \/ (Habit = "bail" /\ Num(s.sec.k, 1) = 0)
  THEN IF shape = "derive" THEN [s EXCEPT !.pc = "done", !.res = << "point", s.r[2] >>, !.course = Put(@, "return")]
       ELSE [s EXCEPT !.pc = "compare", !.i = 1, !.course = Put(@, "re-encrypt")]
  ELSE [s EXCEPT !.i = @ + 1, !.course = Put(@, "isogeny")]
Compare(s) ==
  IF s.i > B \/ (Habit = "early" /\ s.diff # 0) THEN [s EXCEPT !.pc = "select", !.course = Put(@, "compared")]
  ELSE [s EXCEPT !.i = @ + 1, !.diff = IF s.sec.re[s.i] # Ct[s.i] THEN 1 ELSE @, !.course = Put(@, "compare a byte")]
Select(s) ==
  LET what == IF s.diff = 0 THEN "message" ELSE "rejection"
  IN [s EXCEPT !.pc = "done", !.res = << what, s.r[2] >>,
               !.course = Put(@, IF Habit = "pick" THEN what ELSE "select, hash")]
Go(s) == CASE s.pc = "ladder" -> Ladder(s) [] s.pc = "walk" -> Walk(s) [] s.pc = "compare" -> Compare(s)
           [] s.pc = "select" -> Select(s) [] OTHER -> s
Next == one.pc # "done" /\ one' = Go(one) /\ two' = Go(two) /\ UNCHANGED shape
Spec == Init /\ [][Next]_vars
(* the runs cannot be told apart while they go on, nor by when they end *)
Alike == one.course = two.course /\ (one.pc = "done") = (two.pc = "done")
Right == \A s \in {one, two} : s.pc = "done" => s.res = Value(shape, s.sec)
\* what the shape settles
Times(n, st) == [i \in 1..n |-> st]
Plan(sh) == Times(N, "swap, double and add") \o << "ladder done" >> \o Times(N, "isogeny")
            \o (IF sh = "derive" THEN << "return" >>
                ELSE << "re-encrypt" >> \o Times(B, "compare a byte") \o << "compared", "select, hash" >>)
Obj == INSTANCE CourseObj WITH secret <- one.sec, course <- one.course, res <- one.res, plan <- Plan(shape)
Refines == Obj!OSpec
=============================================================================
