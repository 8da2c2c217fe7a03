------------------------------- MODULE CourseObj -------------------------------
(* What an observer of the statements a call executes may learn.  A call has a public shape
   (routine, field, lengths of its arguments) and secrets (a scalar, a message, the rejection
   value, whether the ciphertext is the one re-encryption gives).  Its course, the sequence of
   statements executed, is settled by the shape before any secret is drawn: Plan.  The result
   is the specified function of both. *)
EXTENDS Naturals, Sequences
CONSTANT Value(_, _)     \* shape, secret: what the call returns
VARIABLES shape, secret, course, plan, res
ovars == << shape, secret, course, plan, res >>
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* plan: chosen when the call begins, without a look at the secret
OInit == course = << >> /\ res = "none"
Step == /\ \E st \in {plan[Len(course) + 1]} : course' = Append(course, st)
        /\ Len(course) < Len(plan)
        /\ res' = IF Len(course') = Len(plan) THEN Value(shape, secret) ELSE "none"
        /\ UNCHANGED << shape, secret, plan >>
OSpec == OInit /\ [][Step]_ovars
=============================================================================
