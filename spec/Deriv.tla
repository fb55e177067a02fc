-------------------------------- MODULE Deriv --------------------------------
(* Finite differences and the derivative checks (C20) on polynomials with known exact derivatives.  A polynomial is a  *)
(* sequence of monomials [c, e] with coefficient c and exponents e.                                                    *)
EXTENDS Num, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
vars == <<tr, i>>
Ev == Traces[tr].ev
T(ok, tag) == IF ok THEN {} ELSE {tag}
Init == tr \in 1..Len(Traces) /\ i = 1

RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE NMul(x, Pow(x, k - 1))
RECURSIVE Prod(_, _, _)
Prod(e, z, j) == IF j > Len(e) THEN 1 ELSE NMul(Pow(z[j], e[j]), Prod(e, z, j + 1))
Eval(f, z) == NSum([q \in 1..Len(f) |-> NMul(f[q].c, Prod(f[q].e, z, 1))])
D(f, j) == LET g == [q \in 1..Len(f) |-> [c |-> NMul(f[q].c, f[q].e[j]), e |-> IF f[q].e[j] = 0 THEN f[q].e ELSE [f[q].e EXCEPT ![j] = @ - 1]]]
               On(m) == ~NEq(m.c, 0)
           IN SelectSeq(g, On)
Abs(f) == [q \in 1..Len(f) |-> [f[q] EXCEPT !.c = NAbs(@)]]
(* an upper bound of |f| on the box around z with half width w *)
Bound(f, z, w) == Eval(Abs(f), [j \in 1..Len(z) |-> NAdd(NAbs(z[j]), w)])

(* what the difference scheme may be off by: its truncation error (sharp up to a factor 2 or more) and rounding *)
Round(f, z, eps) ==
  LET w == NMul(2, eps)
      mag == NAdd(Bound(f, z, w), NSum([j \in 1..Len(z) |-> NMul(Bound(D(f, j), z, w), NAdd(1, NAbs(z[j])))]))
  IN NMul("1e-14", NAdd("1e-300", mag))
FirstErr(f, j, z, eps, central) ==
  NAdd(NDiv(Round(f, z, eps), eps),
       IF central THEN NMul(NMul(eps, eps), NMul("1/3", Bound(D(D(D(f, j), j), j), z, eps)))
       ELSE NMul(eps, NMul("3/4", Bound(D(D(f, j), j), z, eps))))
SecondErr(f, j, l, z, eps, central) ==
  LET w == NMul(2, eps)
      B(g) == Bound(g, z, w)
      jl == D(D(f, j), l)
  IN NAdd(NDiv(NMul(4, Round(f, z, eps)), NMul(eps, eps)),
          IF central THEN NMul(NMul(eps, eps), NMul("2/3", NAdd(B(D(D(jl, j), j)), B(D(D(jl, l), l)))))
          ELSE NMul(eps, NMul("3/2", NAdd(B(D(jl, j)), B(D(jl, l))))))
Within(a, b, err) == NLe(NAbs(NSub(a, b)), err)

FD(e) ==
  LET d == Len(e.x)
      p == Len(e.f)
      shape == IF e.k = "jac" THEN e.rows = p /\ e.cols = d ELSE IF e.k = "grad" THEN e.rows = d /\ e.cols = 1 ELSE e.rows = d /\ e.cols = d
  IN T(VEq(e.x, e.xa), "C20:input-changed")
     \cup IF ~shape THEN {"C20:shape"} ELSE
       T(CASE e.k = "jac" -> \A q \in 1..p : \A j \in 1..d : Within(e.J[q][j], Eval(D(e.f[q], j), e.x), FirstErr(e.f[q], j, e.x, e.eps, e.central))
           [] e.k = "grad" -> \A j \in 1..d : Within(e.J[j][1], Eval(D(e.f[1], j), e.x), FirstErr(e.f[1], j, e.x, e.eps, e.central))
           [] OTHER -> \A j \in 1..d : \A l \in 1..d :
                Within(e.J[j][l], Eval(D(D(e.f[1], j), l), e.x), SecondErr(e.f[1], j, l, e.x, e.eps, e.central)), "C20:" \o e.k \o (IF e.central THEN "-central" ELSE "-forward"))

(* the combination b'f of the outputs; at an unknown point in [-1,1]^d only bounds are used *)
Comb(f, b) == LET RECURSIVE C(_) C(q) == IF q > Len(f) THEN <<>> ELSE [k \in 1..Len(f[q]) |-> [f[q][k] EXCEPT !.c = NMul(b[q], @)]] \o C(q + 1) IN C(1)
Norm(v) == NSqrt(NSum([q \in 1..Len(v) |-> NMul(v[q], v[q])]))
Pairs(S, U) == S \X U
SchemeErr(e) ==
  IF e.k = "hess"
  THEN LET g == IF e.at THEN Comb(e.f, e.b) ELSE Comb([q \in 1..Len(e.f) |-> Abs(e.f[q])], [q \in 1..Len(e.b) |-> NAbs(e.b[q])])
       IN NSum([j \in 1..e.d |-> NSum([l \in 1..e.d |-> SecondErr(g, j, l, e.z, "1e-4", TRUE)])])
  ELSE NSum([q \in 1..Len(e.f) |-> NSum([j \in 1..e.d |-> FirstErr(e.f[q], j, e.z, "1e-6", FALSE)])])
Check(e) ==
  LET b == Strict(SchemeErr(e))
      bad == \E q \in 1..Len(e.err) : ~NFin(e.err[q])
      err == Norm(e.err)
  IN IF bad THEN T(~e.ok, "C20:accepts-nan")
     ELSE IF NLt(NAdd(err, b), e.tol) THEN T(e.ok, "C20:rejects-correct-" \o e.k)
     ELSE IF NGt(NSub(err, b), e.tol) THEN T(~e.ok, "C20:accepts-wrong-" \o e.k)
     ELSE {}
Base(e) ==
  LET p == Len(e.f)
      g == Comb(e.f, e.b)
  IN T(\A q \in 1..p : Close(e.y[q], Eval(e.f[q], e.z)), "C20:combined-value")
     \cup T(\A q \in 1..p : \A j \in 1..e.d : Close(e.J[q][j], Eval(D(e.f[q], j), e.z)), "C20:combined-jacobian")
     \cup T(\A j \in 1..e.d : \A l \in 1..e.d : Close(e.H[j][l], Eval(D(D(g, j), l), e.z)), "C20:combined-hessian")
Step(e) ==
  CASE e.e = "fd" -> FD(e)
    [] e.e = "check" -> Check(e)
    [] e.e = "base" -> Base(e)
    [] e.e = "val" -> T(\A q \in 1..Len(e.f) : Close(e.y[q], Eval(e.f[q], e.z)) /\ Close(e.y2[q], Eval(e.f[q], e.z)), "C20:value")
    [] e.e = "crash" -> {"C20:" \o e.how}

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ Rej(Step(Ev[i]))
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
