------------------------------ MODULE Riccati ------------------------------
(* The regularised backward pass (a time-varying LQR sweep), written from its definition: at every time step the    *)
(* action-value expansion of the cost-to-go model, its minimiser over the controls for the regularised control      *)
(* Hessian, and the cost-to-go of the *unregularised* model under the resulting affine policy.                      *)
EXTENDS Poly

(* Gaussian elimination of the symmetric system [A | B]; pivots are those of an LDL' factorization, so A is       *)
(* positive definite iff all of them are positive.                                                                *)
RECURSIVE Elim(_, _, _)
Elim(M, p, piv) ==
  IF p > Len(M) THEN [M |-> M, piv |-> piv]
  ELSE IF ~NGt(M[p][p], 0) THEN [M |-> M, piv |-> Append(piv, M[p][p])]
  ELSE LET R == Strict([i \in 1..Len(M) |-> IF i = p THEN M[i]
                          ELSE VSub(M[i], VScale(NDiv(M[i][p], M[p][p]), M[p]))])
       IN Elim(R, p + 1, Append(piv, M[p][p]))
(* solve A Z = B for positive definite A: [pd, piv, Z] *)
SymSolve(A, B) ==
  LET m == Len(A)
      e == Elim(Strict([i \in 1..m |-> A[i] \o B[i]]), 1, <<>>)
      ok == \A i \in 1..Len(e.piv) : NGt(e.piv[i], 0)
  IN [pd |-> ok, piv |-> e.piv,
      Z |-> IF ok THEN [i \in 1..m |-> [j \in 1..Len(B[1]) |-> NDiv(e.M[i][m + j], e.M[i][i])]] ELSE <<>>]

ActionValue(E, S, s) ==
  LET At == Strict(MT(E.A))  Bt == Strict(MT(E.B))
      SA == Strict(MMul(S, E.A))  SB == Strict(MMul(S, E.B))
  IN [xx |-> Strict(MAdd(E.xx, MMul(At, SA))), xu |-> Strict(MAdd(E.xu, MMul(At, SB))),
      uu |-> Strict(MAdd(E.uu, MMul(Bt, SB))), x |-> Strict(VAdd(E.x, MVec(At, s))), u |-> Strict(VAdd(E.u, MVec(Bt, s)))]

(* one time step; pd/amb: outcome of the factorization, amb if it is too close to call *)
StepBP(E, S, s, rho) ==
  LET Q == ActionValue(E, S, s)
      m == Len(Q.uu)
      A == Strict([i \in 1..m |-> [j \in 1..m |-> IF i = j THEN NAdd(Q.uu[i][j], rho) ELSE Q.uu[i][j]]])
      B == Strict([i \in 1..m |-> MT(Q.xu)[i] \o <<Q.u[i]>>])
      r == SymSolve(A, B)
      eps == NMul("1e-6", NAdd(MMaxAbs(A), "1e-3"))
      amb == \E i \in 1..Len(r.piv) : NLt(NAbs(r.piv[i]), eps)
      n == Len(Q.x)
  IN IF amb \/ ~r.pd THEN [pd |-> r.pd, amb |-> amb]
     ELSE LET K == Rnd([i \in 1..m |-> [j \in 1..n |-> NNeg(r.Z[i][j])]])
              d == Rnd([i \in 1..m |-> NNeg(r.Z[i][n + 1])])
              Kt == Strict(MT(K))
              UUK == Strict(MMul(Q.uu, K))  UUd == Strict(MVec(Q.uu, d))
              XUK == Strict(MMul(Q.xu, K))
          IN [pd |-> TRUE, amb |-> FALSE, K |-> K, d |-> d,
              s |-> Rnd(VAdd(VAdd(Q.x, MVec(Kt, UUd)), VAdd(MVec(Kt, Q.u), MVec(Q.xu, d)))),
              S |-> Rnd(MAdd(MAdd(Q.xx, MMul(Kt, UUK)), MAdd(MT(XUK), XUK))),
              dv1 |-> NDouble(NDot(d, Q.u)), dv2 |-> NDouble(NMul("1/2", NDot(d, UUd)))]

(* the sweep with a fixed regularization: [ok, amb, g] with g[k] the step results for k = 1..N *)
RECURSIVE SweepFrom(_, _, _, _, _, _)
SweepFrom(E, k, S, s, rho, g) ==
  IF k = 0 THEN [ok |-> TRUE, amb |-> FALSE, g |-> g]
  ELSE LET r == StepBP(E[k], S, s, rho)
       IN IF r.amb THEN [ok |-> FALSE, amb |-> TRUE, g |-> <<>>]
          ELSE IF ~r.pd THEN [ok |-> FALSE, amb |-> FALSE, g |-> <<>>]
          ELSE SweepFrom(E, k - 1, r.S, r.s, rho, <<r>> \o g)
Sweep(E, rho) == LET N == Len(E) - 1 IN SweepFrom(E, N, E[N + 1].xx, E[N + 1].x, rho, <<>>)

(* ---------------------------------------------------------------- regularization schedule *)
Clip(o, v) == NMin(NMax(v, o.regMin), o.regMax)
Increase(o, r) == LET dr == NDouble(NMax(NMul(r.drho, o.regFactor), o.regFactor))
                  IN [rho |-> Clip(o, NDouble(NMul(r.rho, dr))), drho |-> dr]
Decrease(o, r) == LET dr == NDouble(NMin(NDiv(r.drho, o.regFactor), NDiv(1, o.regFactor)))
                  IN [rho |-> Clip(o, NDouble(NMul(r.rho, dr))), drho |-> dr]

(* restart with more regularization until every factorization succeeds, or fail *)
RECURSIVE BackwardFrom(_, _, _, _, _)
BackwardFrom(o, E, r, cnt, tries) ==
  LET w == Sweep(E, r.rho)
  IN IF w.amb THEN [amb |-> TRUE, ok |-> FALSE, reg |-> r, g |-> <<>>, tries |-> tries]
     ELSE IF w.ok THEN [amb |-> FALSE, ok |-> TRUE, reg |-> r, g |-> w.g, tries |-> tries]
     ELSE LET r2 == Increase(o, r)
              c2 == IF NGe(r2.rho, o.regMax) THEN cnt + 1 ELSE cnt
          IN IF c2 >= o.regFail THEN [amb |-> FALSE, ok |-> FALSE, reg |-> r2, g |-> <<>>, tries |-> tries]
             ELSE BackwardFrom(o, E, r2, c2, tries + 1)
Backward(o, E, r) == BackwardFrom(o, E, r, 0, 0)
=============================================================================
