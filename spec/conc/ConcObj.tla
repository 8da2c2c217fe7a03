-------------------------------- MODULE ConcObj --------------------------------
(* Threads with objects of their own and keys they share read-only.  A call of a thread is
   one atomic step here: what it returns is a function of the operation, the thread's own
   objects, the shared keys and the random bytes the thread's own generator gave - never of
   what other threads do, whenever they do it. *)
EXTENDS Naturals, Sequences
CONSTANTS Threads, OpsOf(_, _),     \* thread, its objects -> operations it may call
          Eff(_, _, _),             \* operation, own objects, shared -> own objects after
          Res(_, _, _, _),          \* operation, own objects, shared, draws -> result
          Draws(_),                 \* operation -> number of random values it draws
          Start(_), Keys            \* objects at the start; the shared keys (a constant)
VARIABLES own, drawn, results       \* drawn: values taken from the thread's generator so far
cvars == << own, drawn, results >>
Stream(t, from, n) == [i \in 1..n |-> << t, from + i >>]
CInit == /\ own = [t \in Threads |-> Start(t)]
         /\ drawn = [t \in Threads |-> 0]
         /\ results = [t \in Threads |-> << >>]
Call(t, op) ==
  /\ own' = [own EXCEPT ![t] = Eff(op, @, Keys)]
  /\ drawn' = [drawn EXCEPT ![t] = @ + Draws(op)]
  /\ results' = [results EXCEPT ![t] = Append(@, Res(op, own[t], Keys, Stream(t, drawn[t], Draws(op))))]
CNext == \E t \in Threads : \E op \in OpsOf(t, own[t]) : Call(t, op)
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
