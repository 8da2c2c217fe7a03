-------------------------------- MODULE ValImpl --------------------------------
(* Validation of the code over the toy prime: range, singularity, and the order of random
   points by divide and conquer.  Whatever points are drawn, the answer is right. *)
EXTENDS ToyCsidh
CONSTANTS As, Xs
VARIABLES curve, ans
vars == << curve, ans >>
Bound4 == 81                      \* floor of 4 sqrt(p)
(* << finished, supersingular, order >> *)
RECURSIVE Cof(_, _, _, _, _)
Cof(p, co, lo, hi, ord) ==        \* primes lo+1..hi, as in the code
  IF hi - lo = 1
  THEN IF p[2] = 0 THEN << FALSE, FALSE, ord >>
       ELSE LET q == XMul(p, co, Ell[lo + 1]) IN
            IF q[2] # 0 THEN << TRUE, FALSE, ord >>
            ELSE LET o == ord * Ell[lo + 1] IN IF Bound4 < o THEN << TRUE, TRUE, o >> ELSE << FALSE, FALSE, o >>
  ELSE LET mid == lo + ((hi - lo + 1) \div 2)
           mr == FoldLeft(LAMBDA s, i : IF i > lo /\ i <= mid THEN s * Ell[i] ELSE s, 1, [i \in 1..N |-> i])
           ml == FoldLeft(LAMBDA s, i : IF i > mid /\ i <= hi THEN s * Ell[i] ELSE s, 1, [i \in 1..N |-> i])
           r1 == Cof(XMul(p, co, mr), co, mid, hi, ord)
           r2 == Cof(XMul(p, co, ml), co, lo, mid, r1[3])
       IN << r1[1] \/ r2[1], r1[2] \/ r2[2], r2[3] >>
Init == curve \in As /\ ans = IF curve >= P \/ curve = 2 \/ curve = P - 2 THEN "no" ELSE "open"
Draw(x) ==
  /\ ans = "open"
  /\ LET r == Cof(XDbl(XDbl(<< x, 1 >>, << curve, 1 >>), << curve, 1 >>), << curve, 1 >>, 0, N, 1)
     IN ans' = IF ~ r[1] THEN "open" ELSE IF r[2] THEN "yes" ELSE "no"
  /\ UNCHANGED curve
Next == \E x \in Xs : Draw(x)
Spec == Init /\ [][Next]_vars
Right == ans # "open" => (ans = "yes") = (curve \in SS)
(* every curve gets an answer from some point *)
Decidable == ans = "open" => \E x \in F : Cof(XDbl(XDbl(<< x, 1 >>, << curve, 1 >>), << curve, 1 >>), << curve, 1 >>, 0, N, 1)[1]
AllX == F
SomeX == { x \in F : x % 9 = 0 }
AllA == 0..511
=============================================================================
