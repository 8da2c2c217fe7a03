-------------------------------- MODULE ActImpl --------------------------------
(* The group-action loop of the code over the toy prime, one random point per step: sign,
   cofactor, done flags.  Whatever points are drawn, it ends on the curve Act says. *)
EXTENDS ToyCsidh
CONSTANTS MaxExp,      \* exponents in -MaxExp..MaxExp
          Curves,      \* starting curves
          Xs           \* random abscissas
VARIABLES a0, e0, cur, todo, cof4, done, ended
vars == << a0, e0, cur, todo, cof4, done, ended >>

Exps == [1..N -> (-MaxExp)..MaxExp]
Pos(v) == IF v > 0 THEN v ELSE 0
KOf(ex) == 4 * FoldLeft(LAMBDA s, i : IF ex[i] = 0 THEN s * Ell[i] ELSE s, 1, [i \in 1..N |-> i])
Init == /\ a0 \in (SS \cap Curves) /\ e0 \in Exps
        /\ cur = a0
        /\ todo = << [i \in 1..N |-> Pos(e0[i])], [i \in 1..N |-> Pos(-e0[i])] >>
        /\ cof4 = << KOf(todo[1]), KOf(todo[2]) >>
        /\ done = << FALSE, FALSE >> /\ ended = FALSE

(* s = << point, curve, exponents, cof4, done >>; prime i *)
Prime1(s, i) ==
  IF s[3][i] = 0 THEN s
  ELSE LET cof == FoldLeft(LAMBDA c, j : IF j > i /\ s[3][j] # 0 THEN c * Ell[j] ELSE c, 1, [j \in 1..N |-> j])
           K == XMul(s[1], s[2], cof)
       IN IF K[2] = 0 THEN << s[1], s[2], s[3], s[4], FALSE >>
          ELSE LET r == XIso(s[1], s[2], K, Ell[i])
                   ne == [s[3] EXCEPT ![i] = @ - 1]
               IN << r[1], r[2], ne, IF ne[i] = 0 THEN s[4] * Ell[i] ELSE s[4], s[5] /\ ne[i] = 0 >>
Sign(x) == IF Leg(Rhs(cur, x)) = 1 THEN 1 ELSE 2
Result(x) ==
  LET sg == Sign(x)
      P0 == XMul(<< x, 1 >>, << cur, 1 >>, cof4[sg])
  IN FoldLeft(LAMBDA s, i : Prime1(s, i), << P0, << cur, 1 >>, todo[sg], cof4[sg], TRUE >>, [i \in 1..N |-> i])
Draw(x) ==
  LET sg == Sign(x) IN
  /\ ~ ended /\ ~ done[sg]
  /\ LET r == TLCEval(Result(x))
     IN /\ cur' = M(r[2][1], InvT[r[2][2]])
        /\ todo' = [todo EXCEPT ![sg] = r[3]] /\ cof4' = [cof4 EXCEPT ![sg] = r[4]]
        /\ done' = [done EXCEPT ![sg] = r[5]]
        /\ ended' = (done'[1] /\ done'[2])
  /\ UNCHANGED << a0, e0 >>
Next == \E x \in Xs : Draw(x)
Spec == Init /\ [][Next]_vars

(* the part of the action still to do is what the exponents say, and the result is unique *)
Rest == [i \in 1..N |-> todo[1][i] - todo[2][i]]
OnTrack == cur \in SS /\ Act(cur, Rest) = Act(a0, e0)
Right == ended => cur = Act(a0, e0)
(* some point makes progress *)
CanEnd == ended \/ \E x \in F : ~ done[Sign(x)] /\ LET r == TLCEval(Result(x)) IN r[5] \/ r[3] # todo[Sign(x)]
AllX == F
SomeX == { x \in F : x % 7 \in {0, 1} }
AllC == F
SomeC == {0, 158, 390, 368, 6, 261}
=============================================================================
