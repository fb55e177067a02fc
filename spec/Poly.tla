-------------------------------- MODULE Poly --------------------------------
(* The optimal control problems of the conformance runs: polynomial dynamics, costs and constraints with known     *)
(* coefficients (harness/prob.hpp), their exact derivatives, and the trajectory-level quantities the solvers are    *)
(* specified with: rollouts, costs, constraint values, violations and the augmented Lagrangian.                     *)
(* A problem P is a record [n, m, N, x0, dyn, cost, con, t, h]; knot points are numbered 1..N+1.                    *)
EXTENDS Num

Sq(a) == NMul(a, a)
AllK(P) == 1..(P.N + 1)

(* ---------------------------------------------------------------- dynamics *)
DynEval(d, x, u, t, h) ==
  Rnd([i \in 1..Len(x) |-> NSum(<<NDot(d.A[i], x), NDot(d.B[i], u),
         NMul(NMul(h, d.s[i]), NMul(x[d.p[i]], u[d.q[i]])), NMul(d.w[i], t)>>)])
DynA(d, x, u, h) ==
  Strict([i \in 1..Len(x) |-> [j \in 1..Len(x) |->
     IF j = d.p[i] THEN NAdd(d.A[i][j], NMul(NMul(h, d.s[i]), u[d.q[i]])) ELSE d.A[i][j]]])
DynB(d, x, u, h) ==
  Strict([i \in 1..Len(x) |-> [j \in 1..Len(u) |->
     IF j = d.q[i] THEN NAdd(d.B[i][j], NMul(NMul(h, d.s[i]), x[d.p[i]])) ELSE d.B[i][j]]])

RECURSIVE RollFrom(_, _, _, _)
RollFrom(P, U, k, X) ==
  IF k > P.N THEN X ELSE RollFrom(P, U, k + 1, Append(X, DynEval(P.dyn[k], X[k], U[k], P.t[k], P.h[k])))
OpenLoop(P, U) == RollFrom(P, U, 1, <<P.x0>>)

(* ---------------------------------------------------------------- stage costs *)
StageCost(c, x, u) ==
  NSum(<<NMul("1/2", NDot(x, MVec(c.Q, x))), NDot(x, MVec(c.H, u)), NMul("1/2", NDot(u, MVec(c.R, u))),
         NDot(c.q, x), NDot(c.r, u), c.c, NMul(c.g, Sq(Sq(x[c.pi]))), NMul(c.s, NMul(Sq(x[c.pi]), u[c.qi]))>>)
CostDx(c, x, u) ==
  LET b == VAdd(VAdd(MVec(c.Q, x), MVec(c.H, u)), c.q)
  IN [i \in 1..Len(x) |-> IF i = c.pi THEN
        NSum(<<b[i], NMul(NMul(4, c.g), NMul(x[i], Sq(x[i]))), NMul(NMul(2, c.s), NMul(x[i], u[c.qi]))>>) ELSE b[i]]
CostDu(c, x, u) ==
  LET b == VAdd(VAdd(MVec(c.R, u), MVec(MT(c.H), x)), c.r)
  IN [i \in 1..Len(u) |-> IF i = c.qi THEN NAdd(b[i], NMul(c.s, Sq(x[c.pi]))) ELSE b[i]]
CostXX(c, x, u) ==
  [i \in 1..Len(x) |-> [j \in 1..Len(x) |-> IF i = c.pi /\ j = c.pi THEN
      NSum(<<c.Q[i][j], NMul(NMul(12, c.g), Sq(x[i])), NMul(NMul(2, c.s), u[c.qi])>>) ELSE c.Q[i][j]]]
CostXU(c, x, u) ==
  [i \in 1..Len(x) |-> [j \in 1..Len(u) |-> IF i = c.pi /\ j = c.qi THEN
      NAdd(c.H[i][j], NMul(NMul(2, c.s), x[i])) ELSE c.H[i][j]]]
CostUU(c, x, u) == c.R

(* ---------------------------------------------------------------- constraints *)
(* in the order the solver keeps them: equalities first, then inequalities, each in the order they were added *)
Cons(P, k) ==
  LET eq(c) == c.type = "eq"  ineq(c) == c.type # "eq"
  IN SelectSeq(P.con[k], eq) \o SelectSeq(P.con[k], ineq)
ConVal(c, x, u) ==
  Strict([i \in 1..Len(c.e) |-> NSum(<<NDot(c.C[i], x), NDot(c.D[i], u), c.e[i],
                                      NMul(c.s[i], NMul(x[c.p[i]], u[c.q[i]]))>>)])
ConJx(c, x, u) ==
  [i \in 1..Len(c.e) |-> [j \in 1..Len(x) |->
     IF j = c.p[i] THEN NAdd(c.C[i][j], NMul(c.s[i], u[c.q[i]])) ELSE c.C[i][j]]]
ConJu(c, x, u) ==
  [i \in 1..Len(c.e) |-> [j \in 1..Len(u) |->
     IF j = c.q[i] THEN NAdd(c.D[i][j], NMul(c.s[i], x[c.p[i]])) ELSE c.D[i][j]]]
ConVals(P, k, x, u) == LET cs == Cons(P, k) IN Strict([j \in 1..Len(cs) |-> ConVal(cs[j], x, u)])

(* the cone of an equality is {0}, its dual everything; the cone of an inequality is the negative orthant *)
DualProj(type, v) == IF type = "eq" THEN v ELSE NMin(0, v)
Dist(type, c) == IF type = "eq" THEN NAbs(c) ELSE NMax(0, c)
(* the violation vector: value minus its projection onto the cone *)
ViolVec(con, cv) == [i \in 1..Len(cv) |-> IF con.type = "eq" THEN cv[i] ELSE NMax(0, cv[i])]
DistVec(con, cv) == [i \in 1..Len(cv) |-> Dist(con.type, cv[i])]

Flatten(seqs) == LET RECURSIVE F(_) F(j) == IF j > Len(seqs) THEN <<>> ELSE seqs[j] \o F(j + 1) IN F(1)
(* all distances at a knot point / over the trajectory *)
DistsAt(P, k, x, u) ==
  LET cs == Cons(P, k) IN Flatten([j \in 1..Len(cs) |-> DistVec(cs[j], ConVal(cs[j], x, u))])
Dists(P, X, U) == Flatten([k \in AllK(P) |-> DistsAt(P, k, X[k], U[k])])
Viol(P, X, U) == VMaxAbs(Dists(P, X, U))

(* ---------------------------------------------------------------- augmented Lagrangian *)
(* lam, pen: for every knot point, for every constraint, the vectors of multipliers and penalties *)
AugOne(c, x, u, l, r) ==
  LET cv == ConVal(c, x, u)
  IN NSum([i \in 1..Len(cv) |->
       NDiv(NSub(Sq(DualProj(c.type, NSub(l[i], NMul(r[i], cv[i])))), Sq(l[i])), NMul(2, r[i]))])
AugTerms(P, k, x, u, lam, pen) ==
  LET cs == Cons(P, k) IN [j \in 1..Len(cs) |-> AugOne(cs[j], x, u, lam[k][j], pen[k][j])]
StageAug(P, k, x, u, lam, pen) ==
  NAdd(StageCost(P.cost[k], x, u), NSum(AugTerms(P, k, x, u, lam, pen)))
AugCosts(P, X, U, lam, pen) == Rnd([k \in AllK(P) |-> StageAug(P, k, X[k], U[k], lam, pen)])

(* "-projected multiplier", row by row *)
AugMult(c, x, u, l, r) ==
  LET cv == ConVal(c, x, u) IN Strict([i \in 1..Len(cv) |-> NNeg(DualProj(c.type, NSub(l[i], NMul(r[i], cv[i]))))])
(* weight of each row in the Gauss-Newton Hessian: the penalty if the row is active, else 0 *)
AugWeight(c, x, u, l, r) ==
  LET cv == ConVal(c, x, u)
  IN [i \in 1..Len(cv) |-> IF c.type = "eq" \/ NLt(NSub(l[i], NMul(r[i], cv[i])), 0) THEN r[i] ELSE 0]
(* a row exactly (or nearly) at the kink has no Hessian *)
AtKink(c, x, u, l, r) ==
  LET cv == ConVal(c, x, u)
  IN c.type # "eq" /\ \E i \in 1..Len(cv) : NClose(NSub(l[i], NMul(r[i], cv[i])), 0, 0, "1e-8")
Kink(P, k, x, u, lam, pen) ==
  LET cs == Cons(P, k) IN \E j \in 1..Len(cs) : AtKink(cs[j], x, u, lam[k][j], pen[k][j])

RECURSIVE VSumSeq(_, _)
VSumSeq(v, s) == IF s = <<>> THEN v ELSE VSumSeq(VAdd(v, Head(s)), Tail(s))
RECURSIVE MSumSeq(_, _)
MSumSeq(M, s) == IF s = <<>> THEN M ELSE MSumSeq(MAdd(M, Head(s)), Tail(s))
JtWJ(Ja, w, Jb) == MMul(MT(Ja), [i \in 1..Len(Jb) |-> VScale(w[i], Jb[i])])

AugExp(P, k, x, u, lam, pen) ==
  LET cs == Cons(P, k)
      c == P.cost[k]
      g == [j \in 1..Len(cs) |-> AugMult(cs[j], x, u, lam[k][j], pen[k][j])]
      w == [j \in 1..Len(cs) |-> AugWeight(cs[j], x, u, lam[k][j], pen[k][j])]
      Jx == [j \in 1..Len(cs) |-> Strict(ConJx(cs[j], x, u))]
      Ju == [j \in 1..Len(cs) |-> Strict(ConJu(cs[j], x, u))]
  IN [x |-> Rnd(VSumSeq(CostDx(c, x, u), [j \in 1..Len(cs) |-> MVec(MT(Jx[j]), g[j])])),
      u |-> Rnd(VSumSeq(CostDu(c, x, u), [j \in 1..Len(cs) |-> MVec(MT(Ju[j]), g[j])])),
      xx |-> Rnd(MSumSeq(CostXX(c, x, u), [j \in 1..Len(cs) |-> JtWJ(Jx[j], w[j], Jx[j])])),
      xu |-> Rnd(MSumSeq(CostXU(c, x, u), [j \in 1..Len(cs) |-> JtWJ(Jx[j], w[j], Ju[j])])),
      uu |-> Rnd(MSumSeq(CostUU(c, x, u), [j \in 1..Len(cs) |-> JtWJ(Ju[j], w[j], Ju[j])]))]

(* ---------------------------------------------------------------- comparisons *)
(* with a tolerance relative to the largest entry *)
VCloseS(v, w) == Len(v) = Len(w) /\ (VClose(v, w) \/ VCloseTol(v, w, RT, NMul("1e-10", NAdd(1, VMaxAbs(w)))))
RECURSIVE MMaxAbsFrom(_, _)
MMaxAbsFrom(A, i) == IF i > Len(A) THEN 0 ELSE NMax(VMaxAbs(A[i]), MMaxAbsFrom(A, i + 1))
MMaxAbs(A) == MMaxAbsFrom(A, 1)
MCloseS(A, B) == Len(A) = Len(B) /\ (MClose(A, B) \/ MCloseTol(A, B, RT, NMul("1e-10", NAdd(1, MMaxAbs(B)))))
XClose(X, Y) == Len(X) = Len(Y) /\ \A k \in 1..Len(X) : VCloseS(X[k], Y[k])
XEq(X, Y) == Len(X) = Len(Y) /\ \A k \in 1..Len(X) : VEq(X[k], Y[k])
(* lists (per knot point) of lists (per constraint) of vectors *)
LClose(A, B) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : Len(A[k]) = Len(B[k]) /\ \A j \in 1..Len(A[k]) : VClose(A[k][j], B[k][j])
LEq(A, B) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : Len(A[k]) = Len(B[k]) /\ \A j \in 1..Len(A[k]) : VEq(A[k][j], B[k][j])

(* magnitude of the terms that add up to a cost; only evaluated when a comparison is not close at first sight *)
VAbsE(v) == [i \in 1..Len(v) |-> NAbs(v[i])]
MAbsE(A) == [i \in 1..Len(A) |-> VAbsE(A[i])]
CostMag(c, x, u) ==
  StageCost([Q |-> MAbsE(c.Q), R |-> MAbsE(c.R), H |-> MAbsE(c.H), q |-> VAbsE(c.q), r |-> VAbsE(c.r), c |-> NAbs(c.c),
             g |-> NAbs(c.g), s |-> NAbs(c.s), pi |-> c.pi, qi |-> c.qi], VAbsE(x), VAbsE(u))
ConMag(c, x, u, l, r) ==
  LET ca == [c EXCEPT !.C = MAbsE(@), !.D = MAbsE(@), !.e = VAbsE(@), !.s = VAbsE(@)]
      cv == ConVal(ca, VAbsE(x), VAbsE(u))
  IN NSum([i \in 1..Len(cv) |-> NDiv(Sq(NAdd(NAbs(l[i]), NMul(r[i], cv[i]))), r[i])])
StageMag(P, k, x, u, lam, pen) ==
  LET cs == Cons(P, k)
  IN NAdd(CostMag(P.cost[k], x, u), NSum([j \in 1..Len(cs) |-> ConMag(cs[j], x, u, lam[k][j], pen[k][j])]))
(* magnitude of the terms that a multiplier estimate, and the gradients that use it, consist of: large penalties times   *)
(* small constraint values whose own terms cancel                                                                         *)
MultMag(c, x, u, l, r) ==
  LET ca == [c EXCEPT !.C = MAbsE(@), !.D = MAbsE(@), !.e = VAbsE(@), !.s = VAbsE(@)]
      cv == ConVal(ca, VAbsE(x), VAbsE(u))
  IN VMaxAbs([i \in 1..Len(cv) |-> NAdd(NAbs(l[i]), NMul(r[i], cv[i]))])
GradMag(P, k, x, u, lam, pen) ==
  LET cs == Cons(P, k)
  IN NSum([j \in 1..Len(cs) |-> NMul(NAdd(1, NAdd(MMaxAbs(ConJx(cs[j], x, u)), MMaxAbs(ConJu(cs[j], x, u)))), MultMag(cs[j], x, u, lam[k][j], pen[k][j]))])
VCloseG(P, k, x, u, lam, pen, v, w) ==
  VCloseS(v, w) \/ (Len(v) = Len(w) /\ VCloseTol(v, w, RT, NMul("1e-13", GradMag(P, k, x, u, lam, pen))))
TotalMag(P, X, U, lam, pen) == NDouble(NSum([k \in AllK(P) |-> StageMag(P, k, X[k], U[k], lam, pen)]))
=============================================================================
