-------------------------------- MODULE Integ --------------------------------
(* Explicit integrators (C16): forward Euler and the classical fourth-order Runge-Kutta step of polynomial,          *)
(* time-varying models, and the exact derivative of the step by the chain rule over its stages.                       *)
EXTENDS Num, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
T(ok, tag) == IF ok THEN {} ELSE {tag}
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = <<>>      \* the models so far

(* ------------------------------ the continuous model and its derivatives ------------------------------ *)
F(a, x, u, t) == Rnd([j \in 1..Len(x) |->
  NSum(<<NDot(a.A[j], x), NDot(a.B[j], u), NMul(a.s[j], NMul(x[a.p[j]], u[a.q[j]])), NMul(a.g[j], NMul(x[a.r[j]], x[a.r[j]])),
         NMul(a.w[j], NMul(t, t)), NMul(a.v[j], NMul(t, x[a.r[j]])), NMul(a.y[j], NMul(t, u[a.q[j]]))>>)])
Fx(a, x, u, t) == Rnd([j \in 1..Len(x) |-> [l \in 1..Len(x) |->
  NSum(<<a.A[j][l], IF l = a.p[j] THEN NMul(a.s[j], u[a.q[j]]) ELSE 0,
         IF l = a.r[j] THEN NAdd(NMul(2, NMul(a.g[j], x[l])), NMul(a.v[j], t)) ELSE 0>>)]])
Fu(a, x, u, t) == Rnd([j \in 1..Len(x) |-> [l \in 1..Len(u) |->
  NAdd(a.B[j][l], IF l = a.q[j] THEN NAdd(NMul(a.s[j], x[a.p[j]]), NMul(a.y[j], t)) ELSE 0)]])

(* ------------------------------ one step and its derivative ------------------------------ *)
Hcat(A, B) == [r \in 1..Len(A) |-> A[r] \o B[r]]
EulerStep(a, x, u, t, h) == VAdd(x, VScale(h, F(a, x, u, t)))
EulerJac(a, x, u, t, h) == Hcat(MAdd(MId(Len(x)), MScale(h, Fx(a, x, u, t))), MScale(h, Fu(a, x, u, t)))

(* stage values and their derivatives with respect to state and control *)
RK(a, x, u, t, h) ==
  LET n == Len(x)  m == Len(u)  h2 == NMul("1/2", h)
      k1 == F(a, x, u, t)
      x2 == Rnd(VAdd(x, VScale(h2, k1)))
      k2 == F(a, x2, u, NAdd(t, h2))
      x3 == Rnd(VAdd(x, VScale(h2, k2)))
      k3 == F(a, x3, u, NAdd(t, h2))
      x4 == Rnd(VAdd(x, VScale(h, k3)))
      k4 == F(a, x4, u, NAdd(t, h))
      D(xs, ts, c, dx, du) ==   \* derivatives of f(x + c k, u, ts) when those of k are dx, du
        LET fx == Fx(a, xs, u, ts)
        IN [x |-> Rnd(MMul(fx, MAdd(MId(n), MScale(c, dx)))), u |-> Rnd(MAdd(Fu(a, xs, u, ts), MMul(fx, MScale(c, du))))]
      d1 == D(x, t, 0, MZero(n, n), MZero(n, m))
      d2 == D(x2, NAdd(t, h2), h2, d1.x, d1.u)
      d3 == D(x3, NAdd(t, h2), h2, d2.x, d2.u)
      d4 == D(x4, NAdd(t, h), h, d3.x, d3.u)
      h6 == NMul("1/6", h)
  IN [step |-> VAdd(x, VScale(h6, VAdd(VAdd(k1, VScale(2, k2)), VAdd(VScale(2, k3), k4)))),
      jac |-> Hcat(MAdd(MId(n), MScale(h6, MAdd(MAdd(d1.x, MScale(2, d2.x)), MAdd(MScale(2, d3.x), d4.x)))),
                   MScale(h6, MAdd(MAdd(d1.u, MScale(2, d2.u)), MAdd(MScale(2, d3.u), d4.u))))]

Call(e) ==
  LET a == s[e.m]
      r == IF e.meth = "rk4" THEN RK(a, e.x, e.u, e.t, e.h)
           ELSE [step |-> EulerStep(a, e.x, e.u, e.t, e.h), jac |-> EulerJac(a, e.x, e.u, e.t, e.h)]
  IN T(e.step = <<>> \/ VClose(e.step, r.step), "C16:step-" \o e.meth) \cup T(e.jac = <<>> \/ MClose(e.jac, r.jac), "C16:jacobian-" \o e.meth)

Step(e) ==
  CASE e.e = "model" -> [s |-> Append(s, e.par), t |-> {}]
    [] e.e = "call" -> [s |-> s, t |-> Call(e)]
    [] e.e = "crash" -> [s |-> s, t |-> {"C16:" \o e.how}]

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(Ev[i]) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
