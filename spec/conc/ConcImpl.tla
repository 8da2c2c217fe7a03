-------------------------------- MODULE ConcImpl --------------------------------
(* How the calls run: in steps, interleaved with those of the other threads.  A call copies
   its inputs, fills working memory with bytes of its generator, uses them, maybe again, and
   returns.  Where says which memory it works in:
     local   variables of the call                    (randFp, Encapsulate, sums)
     object  buffers inside the thread's own object   (KEM.msg, digest buffers, DRBG state)
     key     buffers inside a key it was given        (randFp until it was repaired)
     package package-level memory
     lazy    package-level tables filled by the first who needs them
     once    the same, behind a lock
   With local, object and once every interleaving refines ConcObj; with key, package and lazy
   it does not (the configurations that must fail are run as well). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Where, KeyNames, MaxCalls

VARIABLES pc, op, got, cell, own, drawn, results, init, seen
vars == << pc, op, got, cell, own, drawn, results, init, seen >>

(* an operation: the shared key it reads, how many random values it draws *)
Ops == [key : KeyNames, n : 0..2]
OpsOf(t, o) == IF o < MaxCalls THEN Ops ELSE {}
Draws(o) == o.n
Eff(o, x, k) == x + 1
TableValue == 7
Res(o, x, k, d) == << o, x, k[o.key], d, TableValue >>
Start(t) == 0
Keys == [k \in KeyNames |-> << "key", k >>]
C == INSTANCE ConcObj

Loc(t) == CASE Where \in {"local", "lazy", "once"} -> << "local", t >>
            [] Where = "object" -> << "object", t >>
            [] Where = "key" -> << "key", op[t].key >>
            [] Where = "package" -> << "package" >>
Locs == { << "local", t >> : t \in Threads } \cup { << "object", t >> : t \in Threads }
        \cup { << "key", k >> : k \in KeyNames } \cup { << "package" >> }
Nothing == << >>
Init ==
  /\ C!CInit
  /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> Nothing]
  /\ got = [t \in Threads |-> << >>] /\ cell = [x \in Locs |-> Nothing]
  /\ init = "no" /\ seen = [t \in Threads |-> 0]

Begin(t) == \E o \in OpsOf(t, own[t]) :
  /\ pc[t] = "idle"
  /\ op' = [op EXCEPT ![t] = o] /\ got' = [got EXCEPT ![t] = << >>]
  /\ pc' = [pc EXCEPT ![t] = "table"]
  /\ UNCHANGED << cell, own, drawn, results, init, seen >>
(* the package-level table *)
Table(t) ==
  /\ pc[t] = "table"
  /\ CASE Where = "lazy" /\ init = "no" ->        \* marks it as there, fills it in the next step
            init' = "filling" /\ pc' = [pc EXCEPT ![t] = "fill table"] /\ UNCHANGED seen
       [] Where = "once" /\ init = "no" -> init' = "done" /\ UNCHANGED << pc, seen >>
       [] OTHER -> /\ UNCHANGED init
                   /\ seen' = [seen EXCEPT ![t] = IF Where = "lazy" /\ init # "done" THEN 0 ELSE TableValue]
                   /\ pc' = [pc EXCEPT ![t] = "draw"]
  /\ UNCHANGED << op, got, cell, own, drawn, results >>
FillTable(t) ==
  /\ pc[t] = "fill table" /\ init' = "done" /\ pc' = [pc EXCEPT ![t] = "table"]
  /\ UNCHANGED << op, got, cell, own, drawn, results, seen >>
(* the generator is the caller's code: other threads run meanwhile *)
Draw(t) ==
  /\ pc[t] = "draw" /\ Len(got[t]) < op[t].n
  /\ cell' = [cell EXCEPT ![Loc(t)] = << t, drawn[t] + Len(got[t]) + 1 >>]
  /\ pc' = [pc EXCEPT ![t] = "use"]
  /\ UNCHANGED << op, got, own, drawn, results, init, seen >>
Use(t) ==
  /\ pc[t] = "use"
  /\ got' = [got EXCEPT ![t] = Append(@, cell[Loc(t)])]
  /\ pc' = [pc EXCEPT ![t] = "draw"]
  /\ UNCHANGED << op, cell, own, drawn, results, init, seen >>
Return(t) ==
  /\ pc[t] = "draw" /\ Len(got[t]) = op[t].n
  /\ results' = [results EXCEPT ![t] = Append(@, << op[t], own[t], Keys[op[t].key], got[t], seen[t] >>)]
  /\ own' = [own EXCEPT ![t] = @ + 1]
  /\ drawn' = [drawn EXCEPT ![t] = @ + op[t].n]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED << op, got, cell, init, seen >>
Next == \E t \in Threads : Begin(t) \/ Table(t) \/ FillTable(t) \/ Draw(t) \/ Use(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
Refines == C!CSpec
=============================================================================
