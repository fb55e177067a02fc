------------------------------ MODULE Examples ------------------------------
(* The shipped costs, constraints, models and example problems (C21), each by its formula.  The state s is the        *)
(* object the following events query.                                                                                  *)
EXTENDS Num, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
T(ok, tag) == IF ok THEN {} ELSE {tag}
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = [k |-> "none"]

Quad(Q, R, H, q, r, c) == [k |-> "cost", Q |-> Q, R |-> R, H |-> H, q |-> q, r |-> r, c |-> c]
NegV(v) == VScale("-1", v)
LQR(Q, R, xr, ur) ==
  Quad(Q, R, MZero(Len(Q), Len(R)), NegV(MVec(Q, xr)), NegV(MVec(R, ur)),
       NMul("1/2", NAdd(NDot(xr, MVec(Q, xr)), NDot(ur, MVec(R, ur)))))
(* the same cost as a deviation from its reference: the documented meaning *)
Deviation(Q, R, xr, ur, x, u) ==
  LET dx == VSub(x, xr)  du == VSub(u, ur) IN NMul("1/2", NAdd(NDot(dx, MVec(Q, dx)), NDot(du, MVec(R, du))))

(* ------------------------------ costs ------------------------------ *)
Val(c, x, u) == NSum(<<NMul("1/2", NDot(x, MVec(c.Q, x))), NDot(x, MVec(c.H, u)), NMul("1/2", NDot(u, MVec(c.R, u))), NDot(c.q, x), NDot(c.r, u), c.c>>)
Gx(c, x, u) == VAdd(VAdd(MVec(c.Q, x), c.q), MVec(c.H, u))
Gu(c, x, u) == VAdd(VAdd(MVec(c.R, u), c.r), MVec(MT(c.H), x))
Cost(c, e) ==
  T(Close(e.J, Val(c, e.x, e.u)), "C21:cost-value")
  \cup T(VClose(e.dx, Gx(c, e.x, e.u)) /\ VClose(e.du, Gu(c, e.x, e.u)), "C21:cost-gradient")
  \cup T(MClose(e.xx, c.Q) /\ MClose(e.uu, c.R) /\ MClose(e.xu, c.H), "C21:cost-hessian")
CostPar(c, e) ==
  T(e.n = Len(c.q) /\ e.m = Len(c.r), "C21:cost-dimensions")
  \cup T(MClose(e.Q, c.Q) /\ MClose(e.R, c.R) /\ MClose(e.H, c.H) /\ VClose(e.q, c.q) /\ VClose(e.r, c.r) /\ Close(e.c, c.c), "C21:cost-parameters")
  \cup T(e.block = \A a \in 1..Len(c.H) : \A b \in 1..Len(c.H[a]) : NEq(c.H[a][b], 0), "C21:cost-blocks")

(* ------------------------------ constraints: value and Jacobian rows ------------------------------ *)
Unit(n, j, v) == [l \in 1..n |-> IF l = j THEN v ELSE 0]
Finite(b) == SelectSeq([j \in 1..Len(b) |-> j], LAMBDA j : NFin(b[j]))
BoundC(b, u) ==
  LET lo == Finite(b.lb)  hi == Finite(b.ub)
  IN [q \in 1..Len(lo) |-> NSub(b.lb[lo[q]], u[lo[q]])] \o [q \in 1..Len(hi) |-> NSub(u[hi[q]], b.ub[hi[q]])]
BoundJ(b, n, m) ==
  LET lo == Finite(b.lb)  hi == Finite(b.ub)
  IN [q \in 1..Len(lo) |-> Unit(n + m, n + lo[q], "-1")] \o [q \in 1..Len(hi) |-> Unit(n + m, n + hi[q], 1)]
Sq(a) == NMul(a, a)
Dist2(o, px, py) == NSub(NAdd(Sq(NSub(px, o[1])), Sq(NSub(py, o[2]))), Sq(o[3]))
CircleC(c, x) == [q \in 1..Len(c.o) |-> NNeg(Dist2(c.o[q], x[c.x], x[c.y]))]
(* the derivatives with respect to the position, in columns a and b *)
CircleCols(c, x, d, a, b) == [q \in 1..Len(c.o) |-> [l \in 1..d |->
   IF l = a THEN NMul(2, NSub(c.o[q][1], x[c.x])) ELSE IF l = b THEN NMul(2, NSub(c.o[q][2], x[c.y])) ELSE 0]]
CircleJ(c, x, d) == CircleCols(c, x, d, c.x, c.y)
ConVal(c, x, u) == CASE c.k = "goal" -> VSub(x, c.xf) [] c.k = "bound" -> BoundC(c, u) [] c.k = "circles" -> CircleC(c, x)
ConJac(c, x, u) ==
  LET n == Len(x)  m == Len(u)
  IN CASE c.k = "goal" -> [q \in 1..n |-> Unit(n + m, q, 1)] [] c.k = "bound" -> BoundJ(c, n, m) [] c.k = "circles" -> CircleJ(c, x, n + m)
Label(c) == CASE c.k = "goal" -> "Goal Constraint" [] c.k = "bound" -> "Control Bound" [] c.k = "circles" -> "Inequality Constraint"
Con(c, e) ==
  LET v == ConVal(c, e.x, e.u)
  IN T(e.p = Len(v), "C21:rows-" \o c.k)
     \cup T(e.p # Len(v) \/ VClose(e.c, v), "C21:value-" \o c.k)
     \cup (IF e.p # Len(v) \/ MClose(e.J, ConJac(c, e.x, e.u)) THEN {}
           ELSE IF c.k = "circles" /\ MClose(e.J, CircleCols(c, e.x, Len(e.x) + Len(e.u), 1, 2)) THEN {"C21:jacobian-ignores-indices"}
           ELSE {"C21:jacobian-" \o c.k})
     \cup T(e.label = Label(c) /\ e.type = (IF c.k = "goal" THEN "Equality Constraint" ELSE "Inequality Constraint") /\ e.hess = FALSE, "C21:label")
Circle(e) ==
  T(Close(e.d2, Dist2(e.o, e.px, e.py)), "C21:distance2")
  \cup T(Close(e.d, NSub(NSqrt(NAdd(Sq(NSub(e.px, e.o[1])), Sq(NSub(e.py, e.o[2])))), e.o[3])), "C21:distance")
  \cup T(VClose(e.g, <<NMul(2, NSub(e.px, e.o[1])), NMul(2, NSub(e.py, e.o[2]))>>), "C21:distance-gradient")

(* ------------------------------ models ------------------------------ *)
Dims(c) == IF c.k = "triple" THEN <<3 * c.dof, c.dof>> ELSE <<3, 2>>
TripleF(d, x, u) == [q \in 1..3 * d |-> IF q <= 2 * d THEN x[q + d] ELSE u[q - 2 * d]]
UniF(x, u) == <<NMul(u[1], NCos(x[3])), NMul(u[1], NSin(x[3])), u[2]>>
ModF(c, x, u) == IF c.k = "triple" THEN TripleF(c.dof, x, u) ELSE UniF(x, u)
ModJ(c, x, u) ==
  IF c.k = "triple" THEN [q \in 1..3 * c.dof |-> Unit(4 * c.dof, q + c.dof, 1)]
  ELSE <<<<0, 0, NNeg(NMul(u[1], NSin(x[3]))), NCos(x[3]), 0>>, <<0, 0, NMul(u[1], NCos(x[3])), NSin(x[3]), 0>>, <<0, 0, 0, 0, 1>>>>
(* Hessian of l . f in (x, u) *)
ModH(c, x, u, l) ==
  IF c.k = "triple" THEN MZero(4 * c.dof, 4 * c.dof)
  ELSE LET tt == NNeg(NMul(u[1], NAdd(NMul(l[1], NCos(x[3])), NMul(l[2], NSin(x[3])))))
           tv == NSub(NMul(l[2], NCos(x[3])), NMul(l[1], NSin(x[3])))
       IN [a \in 1..5 |-> [b \in 1..5 |-> IF a = 3 /\ b = 3 THEN tt ELSE IF {a, b} = {3, 4} THEN tv ELSE 0]]
Model(c, e) ==
  T(VClose(e.f, ModF(c, e.x, e.u)), "C21:model-" \o c.k)
  \cup T(MClose(e.J, ModJ(c, e.x, e.u)), "C21:model-jacobian-" \o c.k)
  \cup T(MClose(e.H, ModH(c, e.x, e.u, e.l)), "C21:model-hessian-" \o c.k)

(* ------------------------------ example problems ------------------------------ *)
DiagM(n, v) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN v ELSE 0]]
Rk4(f(_), x, h) ==
  LET h2 == NMul("1/2", h)
      k1 == Rnd(f(x))  k2 == Rnd(f(VAdd(x, VScale(h2, k1))))  k3 == Rnd(f(VAdd(x, VScale(h2, k2))))  k4 == f(VAdd(x, VScale(h, k3)))
  IN VAdd(x, VScale(NMul("1/6", h), VAdd(VAdd(k1, VScale(2, k2)), VAdd(VScale(2, k3), k4))))
Problem(e) ==
  IF e.e = "tripleprob" THEN
    [k |-> "problem", kind |-> "triple", dof |-> e.dof, N |-> e.N, h |-> e.h, x0 |-> e.x0, u0 |-> VZero(e.dof),
     stage |-> LQR(e.Q, e.R, e.xf, VZero(e.dof)), term |-> LQR(e.Qf, MZero(e.dof, e.dof), e.xf, VZero(e.dof)),
     eq |-> [q \in 0..e.N |-> IF e.con /\ q = e.N THEN <<[k |-> "goal", xf |-> e.xf]>> ELSE <<>>],
     in |-> [q \in 0..e.N |-> IF e.con /\ q < e.N THEN <<[k |-> "bound", lb |-> NegV(e.ub), ub |-> e.ub]>> ELSE <<>>]]
  ELSE
    LET h == NFloat(NDiv(IF e.obst THEN 5 ELSE 3, e.N))
        xf == IF e.obst THEN <<3, 3, 0>> ELSE e.xf
        Q == IF e.obst THEN h ELSE NMul("1/100", h)
        R == IF e.obst THEN NMul("1/2", h) ELSE NMul("1/100", h)
        bnd == IF e.obst THEN [k |-> "bound", lb |-> <<0, -3>>, ub |-> <<3, 3>>]
               ELSE [k |-> "bound", lb |-> <<NNeg(e.v), NNeg(e.w)>>, ub |-> <<e.v, e.w>>]
        obs == [k |-> "circles", o |-> <<<<"3/4", "3/4", "17/40">>, <<"3/2", "3/2", "17/40">>, <<"9/4", "9/4", "17/40">>>>, x |-> 1, y |-> 2]
    IN [k |-> "problem", kind |-> "unicycle", N |-> e.N, h |-> h, x0 |-> IF e.obst THEN VZero(3) ELSE e.x0,
        u0 |-> IF e.obst THEN <<"1/100", "1/100">> ELSE e.u0,
        stage |-> LQR(DiagM(3, Q), DiagM(2, R), xf, e.ur), term |-> LQR(DiagM(3, IF e.obst THEN 10 ELSE 100), MZero(2, 2), xf, e.ur),
        eq |-> [q \in 0..e.N |-> IF e.con /\ q = e.N THEN <<[k |-> "goal", xf |-> xf]>> ELSE <<>>],
        in |-> [q \in 0..e.N |-> (IF e.obst /\ 0 < q /\ q < e.N THEN <<obs>> ELSE <<>>) \o (IF e.con /\ q < e.N THEN <<bnd>> ELSE <<>>)]]
RECURSIVE RowsUpTo(_, _)
Rows(c) == CASE c.k = "goal" -> Len(c.xf) [] c.k = "bound" -> Len(Finite(c.lb)) + Len(Finite(c.ub)) [] c.k = "circles" -> Len(c.o)
RowsUpTo(l, q) == IF q = 0 THEN 0 ELSE Rows(l[q]) + RowsUpTo(l, q - 1)
RECURSIVE AllRows(_, _)
AllRows(p, q) == IF q < 0 THEN 0 ELSE RowsUpTo(p.eq[q], Len(p.eq[q])) + RowsUpTo(p.in[q], Len(p.in[q])) + AllRows(p, q - 1)
Prob(p, e) ==
  T(e.N = p.N /\ VClose(e.x0, p.x0) /\ e.full, "C21:problem")
  \cup T(e.ncon = AllRows(p, p.N), "C21:problem-constraints")
Cons(l, got, x, u) == Len(got) = Len(l) /\ \A q \in 1..Len(l) : got[q].label = Label(l[q]) /\ VClose(got[q].c, ConVal(l[q], x, u))
Knot(p, e) ==
  LET c == IF e.k = p.N THEN p.term ELSE p.stage
      f(x) == IF p.kind = "triple" THEN TripleF(p.dof, x, e.u) ELSE UniF(x, e.u)
  IN (IF Cost(c, e) = {} THEN {}
      ELSE IF p.kind = "triple" /\ e.r # <<>> /\ ~VClose(e.r, c.r) /\ Cost([c EXCEPT !.r = e.r, !.c = e.c], e) = {}
           THEN {"C21:triple-problem-reference"}         \* right for some other control reference
      ELSE {"C21:problem-cost"})
     \cup T(e.k = p.N \/ VClose(e.y, Rk4(f, e.x, e.h)), "C21:problem-dynamics")
     \cup T(Cons(p.eq[e.k], e.eq, e.x, e.u) /\ Cons(p.in[e.k], e.in, e.x, e.u), "C21:problem-constraints")
Guess(p, e) ==
  T(e.N = p.N /\ Len(e.t) = p.N + 1, "C21:initial-trajectory")
  \cup T(\A k \in 1..Len(e.t) : /\ NClose(e.t[k], NMul(k - 1, p.h), "1e-5", "1e-6")
                                /\ NClose(e.h[k], IF k <= p.N THEN p.h ELSE 0, "1e-6", 0)
                                /\ VClose(e.X[k], VZero(Len(p.x0)))
                                /\ VClose(e.U[k], IF k <= p.N THEN p.u0 ELSE VZero(Len(p.u0))), "C21:initial-trajectory")

Step(e) ==
  CASE e.e = "lqr" -> [s |-> LQR(e.Q, e.R, e.xr, e.ur) @@ [ref |-> [x |-> e.xr, u |-> e.ur]], t |-> {}]
    [] e.e = "quad" -> [s |-> Quad(e.Q, e.R, e.H, e.q, e.r, e.c), t |-> {}]
    [] e.e = "costpar" -> [s |-> s, t |-> CostPar(s, e)]
    [] e.e = "cost" -> [s |-> s, t |-> Cost(s, e) \cup T(MClose(e.ux, MT(s.H)), "C21:cost-hessian")
         \cup (IF "ref" \in DOMAIN s THEN T(Close(e.J, Deviation(s.Q, s.R, s.ref.x, s.ref.u, e.x, e.u)), "C21:cost-reference") ELSE {})]
    [] e.e = "goal" -> [s |-> [k |-> "goal", xf |-> e.xf], t |-> {}]
    [] e.e = "dim" -> [s |-> s, t |-> T(e.n = Len(s.xf), "C21:dimension")]
    [] e.e = "bounds" -> [s |-> [k |-> "bound", lb |-> e.lb, ub |-> e.ub], t |-> T(e.m = Len(e.lb), "C21:dimension")]
    [] e.e = "obstacles" -> [s |-> [k |-> "circles", o |-> e.o, x |-> e.x, y |-> e.y], t |-> {}]
    [] e.e = "circle" -> [s |-> s, t |-> Circle(e)]
    [] e.e = "con" -> [s |-> s, t |-> Con(s, e)]
    [] e.e = "triple" -> [s |-> [k |-> "triple", dof |-> e.dof], t |-> {}]
    [] e.e = "unicycle" -> [s |-> [k |-> "unicycle"], t |-> {}]
    [] e.e = "modeldim" -> [s |-> s, t |-> T(<<e.n, e.m>> = Dims(s) /\ e.p = e.n /\ e.hess, "C21:dimension")]
    [] e.e = "model" -> [s |-> s, t |-> Model(s, e)]
    [] e.e \in {"tripleprob", "uniprob"} -> [s |-> Problem(e), t |-> {}]
    [] e.e = "prob" -> [s |-> s, t |-> Prob(s, e)]
    [] e.e = "knot" -> [s |-> s, t |-> Knot(s, e)]
    [] e.e = "traj" -> [s |-> s, t |-> Guess(s, e)]
    [] e.e = "crash" -> [s |-> s, t |-> {"C21:" \o e.how}]

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(Ev[i]) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
