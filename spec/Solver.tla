------------------------------- MODULE Solver -------------------------------
(* Trace specification of iLQR and of the augmented Lagrangian solver: one action per public step of the           *)
(* algorithm.  Every action computes what the step must do from the specification state (exact arithmetic) and     *)
(* compares it with what the implementation recorded; a difference is reported with the property it breaks, and    *)
(* the state continues from the recorded values, so that the rest of the trace is checked as well.                 *)
EXTENDS Decide, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, i, s
vars == <<tr, i, s>>
Prob == Traces[tr].prob

T(ok, tag) == IF ok THEN {} ELSE {tag}
Out(st, tags) == [s |-> st, t |-> tags]

MaxPen(pen) == VMaxAbs(Flatten([k \in 1..Len(pen) |-> Flatten(pen[k])]))
MapCon(lam, f(_, _, _)) == [k \in 1..Len(lam) |-> [j \in 1..Len(lam[k]) |-> [r \in 1..Len(lam[k][j]) |-> f(k, j, r)]]]

(* tag of a wrong augmented or plain cost *)
CostTag(st) == IF st.al THEN "C11:cost" ELSE "C06:cost"

(* ------------------------------------------------------------------ set-up *)
Start(e) ==
  LET st == [al |-> e.al, o |-> e.opts, X |-> e.X, U |-> e.U, lam |-> IF e.al THEN e.lam ELSE [k \in AllK(Prob) |-> <<>>],
             pen |-> IF e.al THEN e.pen ELSE [k \in AllK(Prob) |-> <<>>], phi |-> IF e.al THEN e.phis ELSE <<>>,
             rho |-> 0, drho |-> 0, st |-> UNSOLVED, alst |-> UNSOLVED, inner |-> 0, total |-> 0, outer |-> 0, J0 |-> 0, cost |-> 0,
             rows |-> <<>>, E |-> <<>>, costs |-> <<>>, g |-> <<>>, bp |-> [ok |-> FALSE], viol |-> 0, mpen |-> 0,
             cb |-> e.cb, grad |-> 0, dJ |-> 0, res |-> <<>>, live |-> TRUE, q |-> 0]
      shape == \A k \in AllK(Prob) : Len(st.lam[k]) = Len(IF e.al THEN Prob.con[k] ELSE <<>>) /\ Len(st.pen[k]) = Len(st.lam[k])
      rows == shape /\ \A k \in AllK(Prob) : \A j \in 1..Len(st.lam[k]) : Len(st.lam[k][j]) = Len(Cons(Prob, k)[j].e)
  IN Out(IF rows THEN st ELSE [st EXCEPT !.live = FALSE], T(rows, "C15:constraints"))

SetAll(e) ==
  LET phi == IF NGe(e.phi, 0) THEN [k \in AllK(Prob) |-> [j \in 1..Len(s.phi[k]) |-> e.phi]] ELSE s.phi
      pen == IF NGe(e.rho, 0) THEN MapCon(s.pen, LAMBDA k, j, r : e.rho) ELSE s.pen
      phok == Len(e.phis) = Len(phi) /\ \A k \in 1..Len(phi) : VEq(e.phis[k], phi[k])
  IN Out([s EXCEPT !.phi = e.phis, !.pen = e.pen], T(LEq(e.pen, pen), "C10:set-penalty") \cup T(phok, "C10:set-scaling"))
SetOne(e) ==
  LET phi == [s.phi EXCEPT ![e.k][e.i] = e.phi]
      pen == [s.pen EXCEPT ![e.k][e.i] = [r \in 1..Len(@) |-> e.rho]]
      phok == Len(e.phis) = Len(phi) /\ \A k \in 1..Len(phi) : VEq(e.phis[k], phi[k])
  IN Out([s EXCEPT !.phi = e.phis, !.pen = e.pen], T(LEq(e.pen, pen), "C10:set-penalty") \cup T(phok, "C10:set-scaling"))
UserLam(e) == Out([s EXCEPT !.lam = e.lam], {})

AlInit(e) ==
  LET lam == IF s.o.resetDuals THEN MapCon(s.lam, LAMBDA k, j, r : 0) ELSE s.lam
      pen == IF NGt(s.o.initPen, 0) THEN MapCon(s.pen, LAMBDA k, j, r : s.o.initPen) ELSE s.pen
      rows == <<[ZeroRow EXCEPT !.viol = e.viol, !.pen = e.mpen]>>
  IN Out([s EXCEPT !.lam = e.lam, !.pen = e.pen, !.rows = rows, !.total = 0, !.outer = 0, !.inner = 0, !.alst = UNSOLVED,
                   !.viol = e.viol, !.mpen = e.mpen, !.X = e.X, !.U = e.U],
         T(LEq(e.lam, lam), "C10:init-duals") \cup T(LEq(e.pen, pen), "C10:init-penalty")
         \cup T(Close(e.viol, Viol(Prob, s.X, s.U)), "C12:init-violation")
         \cup T(NEq(e.mpen, MaxPen(e.pen)), "C13:max-penalty")
         \cup T(e.rows = 1 /\ e.total = 0 /\ e.outer = 0 /\ e.inner = 0, "C13:reset")
         \cup T(XEq(e.X, s.X) /\ XEq(e.U, s.U), "C06:init"))
Reset(e) ==
  Out([s EXCEPT !.rows = <<>>, !.total = 0, !.inner = 0], T(e.rows = 0 /\ e.total = 0 /\ e.inner = 0, "C13:reset"))

Setup(e) ==
  LET w == e.task
      part == Len(w) >= 2 /\ w[1] = 0 /\ w[Len(w)] = Prob.N + 1 /\ \A j \in 1..(Len(w) - 1) : w[j] < w[j + 1]
  IN Out([s EXCEPT !.rho = e.rho, !.drho = 0, !.st = e.st, !.inner = e.inner, !.total = e.total],
         T(NEq(e.rho, s.o.regInit), "C09:initial") \cup T(e.st = UNSOLVED, "C05:stale-status")
         \cup T(e.inner = 0, "C05:inner-count") \cup T(e.total = s.total, "C05:total-count") \cup T(part, "C03:partition"))

Rollout(e) ==
  LET X == OpenLoop(Prob, s.U)
  IN Out([s EXCEPT !.X = e.X, !.U = e.U],
         T(VEq(e.X[1], Prob.x0), "C06:initial-state") \cup T(XClose(e.X, X), "C06:rollout") \cup T(XEq(e.U, s.U), "C06:controls"))

SumClose(a, b, X, U) == Close(a, b) \/ NClose(a, b, RT, NMul("1e-12", TotalMag(Prob, X, U, s.lam, s.pen)))
Cost(e) ==
  LET J == NSum(AugCosts(Prob, s.X, s.U, s.lam, s.pen))
  IN Out([s EXCEPT !.J0 = e.J, !.cost = e.J], T(SumClose(e.J, J, s.X, s.U), CostTag(s)))

(* ------------------------------------------------------------------ expansions *)
ExpTags(e, k) ==
  LET x == s.X[k]  u == s.U[k]
      m == AugExp(Prob, k, x, u, s.lam, s.pen)
      r == e.exp[k]
      con == s.lam[k] # <<>>
      kink == con /\ Kink(Prob, k, x, u, s.lam, s.pen)
      tg == IF con THEN "C11:grad" ELSE "C03:expansion"
      th == IF con THEN "C11:hess" ELSE "C03:expansion"
  IN T(VCloseG(Prob, k, x, u, s.lam, s.pen, r.x, m.x) /\ VCloseG(Prob, k, x, u, s.lam, s.pen, r.u, m.u), tg)
     \cup T(kink \/ (MCloseS(r.xx, m.xx) /\ MCloseS(r.xu, m.xu) /\ MCloseS(r.uu, m.uu)), th)
     \cup (IF k = Prob.N + 1 THEN {}
           ELSE T(MCloseS(r.A, DynA(Prob.dyn[k], x, u, Prob.h[k])) /\ MCloseS(r.B, DynB(Prob.dyn[k], x, u, Prob.h[k])), "C03:dynamics"))
CostsOk(costs, X, U) ==     \* the cost of every knot point of a trajectory
  LET c == AugCosts(Prob, X, U, s.lam, s.pen)
  IN Len(costs) = Prob.N + 1 /\ \A k \in AllK(Prob) :
       Close(costs[k], c[k]) \/ NClose(costs[k], c[k], RT, NMul("1e-12", StageMag(Prob, k, X[k], U[k], s.lam, s.pen)))
Expand(e) ==
  LET ok == CostsOk(e.costs, s.X, s.U)
  IN Out([s EXCEPT !.E = e.exp, !.costs = e.costs],
         UNION {ExpTags(e, k) : k \in AllK(Prob)} \cup T(ok, IF s.al THEN "C11:cost" ELSE "C03:costs"))

(* ------------------------------------------------------------------ backward pass *)
GClose(A, B) == MCloseTol(A, B, "1e-7", NMul("1e-8", NAdd(1, MMaxAbs(B))))
GVClose(a, b) == VCloseTol(a, b, "1e-7", NMul("1e-8", NAdd(1, VMaxAbs(b))))
BpTags(e, b) ==
  LET N == Prob.N
      Sc == NAdd(1, NSum([k \in 1..N |-> NAdd(NAbs(b.g[k].dv1), NAbs(b.g[k].dv2))]))
  IN T(\A k \in 1..N : GClose(e.g[k].K, b.g[k].K) /\ GVClose(e.g[k].d, b.g[k].d), "C08:gains")
     \cup T(\A k \in 1..N : GClose(e.g[k].S, b.g[k].S) /\ GVClose(e.g[k].s, b.g[k].s), "C08:cost-to-go")
     \cup T(GClose(e.g[N + 1].S, s.E[N + 1].xx) /\ GVClose(e.g[N + 1].s, s.E[N + 1].x), "C08:terminal")
     \cup T(\A k \in 1..N : NClose(e.g[k].dv, NAdd(b.g[k].dv1, b.g[k].dv2), "1e-7", NMul("1e-8", Sc))
                         /\ NClose(e.g[k].dvh, NAdd(NMul("1/2", b.g[k].dv1), NMul("1/4", b.g[k].dv2)), "1e-7", NMul("1e-8", Sc)), "C08:decrease")
RhoClose(a, b) == NClose(a, b, "1e-9", 0)
Bp(e) ==
  LET r0 == [rho |-> s.rho, drho |-> s.drho]
      b == Strict(Backward(s.o, s.E, r0))
  IN IF b.amb THEN Out([s EXCEPT !.live = FALSE, !.q = "ambiguous-factorization"], {})
     ELSE LET r1 == Decrease(s.o, b.reg)
              rows == SetLast(Rows0(s.rows), [Last(Rows0(s.rows)) EXCEPT !.reg = e.reg])
          IN Out([s EXCEPT !.g = e.g, !.rho = e.rho, !.drho = r1.drho, !.rows = rows, !.st = e.st, !.bp = b],
                 T(RhoClose(e.reg, b.reg.rho), "C09:used") \cup T(RhoClose(e.reg, b.reg.rho), "C13:reg")
                 \cup T(RhoClose(e.rho, r1.rho), "C09:decrease")
                 \cup T(IF b.ok THEN e.st # BPFAILED ELSE e.st = BPFAILED, "C09:failure")
                 \cup T(IF b.ok THEN e.st = s.st ELSE TRUE, "C05:bp-status")
                 \cup (IF b.ok THEN BpTags(e, b) ELSE {}))

(* ------------------------------------------------------------------ forward pass *)
NormCmp(v, lim) ==   \* "over", "under" or "amb"
  LET q == VSq(v)  l == Sq(lim)
  IN IF NClose(q, l, "1e-9", 0) THEN "amb" ELSE IF NGt(q, l) THEN "over" ELSE "under"
RECURSIVE ClosedFrom(_, _, _, _)
ClosedFrom(k, alpha, X, U) ==
  IF k > Prob.N THEN [b |-> "ok", X |-> X, U |-> Append(U, s.U[k])]
  ELSE LET u == Rnd(VAdd(s.U[k], VAdd(MVec(s.g[k].K, VSub(X[k], s.X[k])), VScale(alpha, s.g[k].d))))
           x == DynEval(Prob.dyn[k], X[k], u, Prob.t[k], Prob.h[k])
           cx == IF s.o.bounds THEN NormCmp(x, s.o.stateMax) ELSE "under"
           cu == IF s.o.bounds THEN NormCmp(u, s.o.controlMax) ELSE "under"
       IN IF ~VFin(x) \/ cx = "amb" THEN [b |-> "amb"]
          ELSE IF cx = "over" THEN [b |-> "state"]
          ELSE IF cu = "amb" THEN [b |-> "amb"]
          ELSE IF cu = "over" THEN [b |-> "control"]
          ELSE ClosedFrom(k + 1, alpha, Append(X, x), Append(U, u))
AbsSum(v) == NSum([j \in 1..Len(v) |-> NAbs(v[j])])
(* trial with step length alpha: cls is "yes", "no" or "amb" *)
Trial(alpha, J0) ==
  LET r == ClosedFrom(1, alpha, <<Prob.x0>>, <<>>)
  IN IF r.b # "ok" THEN [cls |-> IF r.b = "amb" THEN "amb" ELSE "no", b |-> r.b, alpha |-> alpha, full |-> FALSE]
     ELSE LET N == Prob.N
              X == Strict(r.X)
              U == Strict(r.U)
              cs == AugCosts(Prob, X, U, s.lam, s.pen)
              J == NDouble(NSum(cs))
              dv1 == NSum([k \in 1..N |-> s.bp.g[k].dv1])  dv2 == NSum([k \in 1..N |-> s.bp.g[k].dv2])
              ex == NDouble(NNeg(NMul(alpha, NAdd(dv1, NMul(alpha, dv2)))))
              big == s.al /\ (NGt(MaxPen(s.pen), "1e5") \/ NGt(MaxPen(s.lam), "1e4"))     \* large terms that cancel
              mag == IF big THEN NMul("1e-12", NAdd(TotalMag(Prob, X, U, s.lam, s.pen), TotalMag(Prob, s.X, s.U, s.lam, s.pen))) ELSE 0
              gm == IF big THEN NMul("1e-12", NMul(NAdd(1, VMaxOf([k \in 1..N |-> VMaxAbs(s.bp.g[k].d)])),
                                NSum([k \in AllK(Prob) |-> NAdd(VMaxAbs(s.E[k].x), NAdd(VMaxAbs(s.E[k].u), GradMag(Prob, k, s.X[k], s.U[k], s.lam, s.pen)))]))) ELSE 0
              ea == NDouble(NAdd(mag, NMul("1e-11", NAdd(1, NAdd(AbsSum(cs), AbsSum(s.costs))))))
              ee == NDouble(NAdd(NAdd("1e-13", NMul(alpha, gm)), NMul("1e-7", NMul(alpha, NAdd(AbsSum([k \in 1..N |-> s.bp.g[k].dv1]), AbsSum([k \in 1..N |-> s.bp.g[k].dv2]))))))
              a == NSub(J0, J)
              aLo == NSub(a, ea)  aHi == NAdd(a, ea)  eLo == NSub(ex, ee)  eHi == NAdd(ex, ee)
              no == ~NFin(J) \/ ~NGt(aHi, 0) \/ ~NGt(eHi, 0) \/ NLt(aHi, NMul(s.o.lsLo, eLo)) \/ NGt(aLo, NMul(s.o.lsHi, eHi))
              yes == NGt(aLo, 0) /\ NGt(eLo, 0) /\ NGe(aLo, NMul(s.o.lsLo, eHi)) /\ NLe(aHi, NMul(s.o.lsHi, eLo))
          IN [cls |-> IF no THEN "no" ELSE IF yes THEN "yes" ELSE "amb", b |-> "ok", alpha |-> alpha, full |-> TRUE,
              X |-> X, U |-> U, J |-> J, a |-> a, ex |-> ex, ea |-> ea, ee |-> ee]
(* all trials up to the first certain acceptance *)
RECURSIVE TrialsFrom(_, _, _, _)
TrialsFrom(j, alpha, J0, acc) ==
  IF j > s.o.lsMax THEN acc
  ELSE LET t == Strict(Trial(alpha, J0))
       IN IF t.cls = "yes" THEN Append(acc, t) ELSE TrialsFrom(j + 1, NDouble(NDiv(alpha, s.o.lsFactor)), J0, Append(acc, t))
BoundStatus(b) == CASE b = "state" -> {STATELIMIT} [] b = "control" -> {CONTROLLIMIT} [] b = "ok" -> {UNSOLVED} [] OTHER -> {UNSOLVED, STATELIMIT, CONTROLLIMIT}

FpTags(e, ts, j, J0, inc) ==
  IF j = 0     \* no trial qualifies
  THEN LET lastst == IF ts = <<>> THEN {s.st} ELSE BoundStatus(ts[Len(ts)].b)
           moved == ~(XEq(e.X, s.X) /\ XEq(e.U, s.U))
       IN T(~moved, "C07:unchanged") \cup T(e.st \in lastst, "C05:failure") \cup T(RhoClose(e.rho, inc.rho), "C07:increase")
          \cup T(RhoClose(e.rho, inc.rho), "C09:increase") \cup T(NClose(e.cost, J0, "1e-9", NMul("1e-11", NAdd(1, AbsSum(s.costs)))), "C13:rejected-cost")
          \cup T(NEq(e.alpha, Last(s.rows).alpha) /\ NEq(e.z, Last(s.rows).z), "C13:rejected-step")
  ELSE LET t == ts[j]
       IN IF ~t.full THEN {}
          ELSE T(NClose(e.alpha, t.alpha, "1e-9", 0), "C07:step-length") \cup T(NClose(e.alpha, t.alpha, "1e-9", 0), "C13:alpha")
               \cup T(XClose(e.X, t.X) /\ XClose(SubSeq(e.U, 1, Prob.N), SubSeq(t.U, 1, Prob.N)), "C07:trajectory")
               \cup T(VEq(e.U[Prob.N + 1], s.U[Prob.N + 1]), "C06:terminal-control")
               \cup T(NClose(e.cost, t.J, RT, t.ea), "C07:cost") \cup T(NClose(e.cost, t.J, RT, t.ea), "C13:cost")
               \cup T(NClose(NMul(e.z, t.ex), t.a, "1e-6", NAdd(t.ea, NMul(NAbs(e.z), t.ee))), "C07:ratio")
               \cup T(NClose(NMul(e.z, t.ex), t.a, "1e-6", NAdd(t.ea, NMul(NAbs(e.z), t.ee))), "C13:ratio")
               \cup T(NClose(NMul(e.z, t.ex), t.a, "1e-6", NAdd(t.ea, NMul(NAbs(e.z), t.ee))), "C08:predicted-decrease")
               \cup T(e.st = UNSOLVED, "C05:fp-status") \cup T(NEq(e.rho, s.rho), "C09:unchanged")
Fp(e) ==
  LET J0 == NSum(s.costs)
      ts == TrialsFrom(1, 1, J0, <<>>)
      n == Len(ts)
      allrej == \A j \in 1..n : ts[j].cls # "yes"
      outs == {j \in 1..n : ts[j].cls # "no"} \cup (IF allrej THEN {0} ELSE {})
      inc == Increase(s.o, [rho |-> s.rho, drho |-> s.drho])
      clean == {j \in outs : FpTags(e, ts, j, J0, inc) = {}}
      pick == IF clean # {} THEN CHOOSE j \in clean : TRUE ELSE IF 0 \in outs /\ Cardinality(outs) = 1 THEN 0 ELSE CHOOSE j \in outs : \A l \in outs : l = 0 \/ j <= l
      accepted == IF clean # {} THEN pick # 0 ELSE ~(XEq(e.X, s.X) /\ XEq(e.U, s.U))
      rows == SetLast(s.rows, [Last(s.rows) EXCEPT !.cost = e.cost, !.alpha = e.alpha, !.z = e.z])
  IN Out([s EXCEPT !.X = e.X, !.U = e.U, !.st = e.st, !.rho = e.rho, !.drho = IF accepted THEN s.drho ELSE inc.drho, !.rows = rows, !.cost = s.cost],
         (IF clean # {} THEN {} ELSE FpTags(e, ts, pick, J0, inc)) \cup T(NLe(e.cost, NAdd(J0, NMul("1e-14", AbsSum(s.costs)))), "C07:monotone")
         \cup T(CostsOk(e.costs, e.X, e.U), "C07:costs"))     \* whatever was tried, the costs held are those of the trajectory held

(* ------------------------------------------------------------------ statistics, convergence *)
NormGain ==
  LET N == Prob.N
      gr == [k \in 1..N |-> VMaxOf([j \in 1..Prob.m |-> NDiv(NAbs(s.g[k].d[j]), NAdd(1, NAbs(s.U[k][j])))])]
  IN NDiv(NSum(gr), N)
Stats(e) ==
  LET prev == IF s.inner = 0 THEN s.J0 ELSE s.rows[Len(s.rows) - 1].cost
      cur == Last(s.rows).cost
      v == IF s.al THEN Viol(Prob, s.X, s.U) ELSE IF s.cb THEN NAbs(s.X[Prob.N + 1][1]) ELSE 0   \* the caller's own measure
      rows == Append(SetLast(s.rows, [Last(s.rows) EXCEPT !.dJ = e.dJ, !.grad = e.grad, !.viol = e.viol]),
                     [Last(s.rows) EXCEPT !.dJ = e.dJ, !.grad = e.grad, !.viol = e.viol])
  IN Out([s EXCEPT !.rows = rows, !.inner = e.inner, !.total = e.total, !.dJ = e.dJ, !.grad = e.grad, !.viol = e.viol],
         T(e.inner = s.inner + 1, "C05:inner-count") \cup T(e.total = s.total + 1, "C05:total-count")
         \cup T(e.rows = Len(rows), "C13:rows") \cup T(Close(e.grad, NormGain), "C05:gradient") \cup T(Close(e.grad, NormGain), "C13:gradient")
         \cup T(NClose(e.dJ, NSub(prev, cur), RT, NMul("1e-14", NAdd(NAbs(prev), NAbs(cur)))), "C13:decrease")
         \cup T(NClose(e.dJ, NSub(prev, cur), RT, NMul("1e-14", NAdd(NAbs(prev), NAbs(cur)))), "C05:decrease")
         \cup T(VClose(<<e.viol>>, <<v>>), "C12:recorded-violation") \cup T(VClose(<<e.viol>>, <<v>>), "C13:violation"))
Done(e) ==
  LET r == IlqrDone(s.o, s.st, s.dJ, s.grad, s.inner, s.total)
  IN Out([s EXCEPT !.st = e.st], T(e.st = r, "C05:status") \cup T(e.ret = (r # UNSOLVED), "C05:continue"))

(* ------------------------------------------------------------------ augmented Lagrangian updates *)
LCloseMult(A, B) ==
  /\ Len(A) = Len(B)
  /\ \A k \in 1..Len(A) : Len(A[k]) = Len(B[k]) /\ \A j \in 1..Len(A[k]) :
       /\ Len(A[k][j]) = Len(B[k][j])
       /\ VCloseTol(A[k][j], B[k][j], RT, NMul("1e-13", MultMag(Cons(Prob, k)[j], s.X[k], s.U[k], s.lam[k][j], s.pen[k][j])))
Duals(e) ==
  LET c == [k \in AllK(Prob) |-> ConVals(Prob, k, s.X[k], s.U[k])]
      lam == MapCon(s.lam, LAMBDA k, j, r : DualProj(Cons(Prob, k)[j].type, NSub(s.lam[k][j][r], NMul(s.pen[k][j][r], c[k][j][r]))))
  IN Out([s EXCEPT !.lam = e.lam, !.pen = e.pen],
         T(LClose(e.c, c), "C10:constraint-values") \cup T(LClose(e.lam, lam) \/ LCloseMult(e.lam, lam), "C10:dual-update") \cup T(LEq(e.pen, s.pen), "C10:penalty-between")
         \cup T(\A k \in 1..Len(e.lam) : \A j \in 1..Len(e.lam[k]) : Cons(Prob, k)[j].type = "eq" \/ \A r \in 1..Len(e.lam[k][j]) : NLe(e.lam[k][j][r], 0), "C10:dual-sign"))
AlStats(e) ==
  LET v == Viol(Prob, s.X, s.U)
      rows == SetLast(Rows0(s.rows), [Last(Rows0(s.rows)) EXCEPT !.viol = e.viol, !.pen = e.mpen])
  IN Out([s EXCEPT !.outer = e.outer, !.viol = e.viol, !.mpen = e.mpen, !.rows = rows],
         T(e.outer = s.outer + 1, "C04:outer-count") \cup T(VClose(<<e.viol>>, <<v>>), "C12:recorded-violation") \cup T(VClose(<<e.viol>>, <<v>>), "C04:violation")
         \cup T(VClose(<<e.viol>>, <<v>>), "C13:violation")
         \cup T(NEq(e.mpen, MaxPen(s.pen)), "C13:max-penalty") \cup T(NEq(e.mpen, MaxPen(s.pen)), "C04:max-penalty") \cup T(e.rows = Len(rows), "C13:rows"))
AlDone(e) ==
  LET r == AlDoneStatus(s.o, s.st, s.viol, s.mpen, s.outer, s.total)
  IN Out([s EXCEPT !.alst = e.st], T(e.ret = (r # UNSOLVED), "C04:continue") \cup T(e.st = r, "C04:status"))
Pens(e) ==
  LET pen == MapCon(s.pen, LAMBDA k, j, r : NDouble(NMul(s.pen[k][j][r], s.phi[k][j])))
  IN Out([s EXCEPT !.pen = e.pen, !.lam = e.lam], T(LClose(e.pen, pen), "C10:penalty-update") \cup T(LEq(e.lam, s.lam), "C10:duals-between"))

(* ------------------------------------------------------------------ whole results *)
Col(rows, f) == [j \in 1..Len(rows) |-> rows[j][f]]
HistOk(h, rows) ==
  /\ Len(h.cost) = Len(h.alpha) /\ Len(h.cost) = Len(h.z) /\ Len(h.cost) = Len(h.grad) /\ Len(h.cost) = Len(h.dJ)
  /\ Len(h.cost) = Len(h.reg) /\ Len(h.cost) = Len(h.viol) /\ Len(h.cost) = Len(h.pen)
HistSame(h, rows) ==
  /\ VEq(h.cost, Col(rows, "cost")) /\ VEq(h.alpha, Col(rows, "alpha")) /\ VEq(h.z, Col(rows, "z")) /\ VEq(h.grad, Col(rows, "grad"))
  /\ VEq(h.dJ, Col(rows, "dJ")) /\ VEq(h.reg, Col(rows, "reg")) /\ VEq(h.viol, Col(rows, "viol")) /\ VEq(h.pen, Col(rows, "pen"))
(* what any finished solve must satisfy, whatever happened inside *)
FinalTags(r) ==
  LET N == Prob.N
      feas == \A k \in 1..N : VCloseS(r.X[k + 1], DynEval(Prob.dyn[k], r.X[k], r.U[k], Prob.t[k], Prob.h[k]))
      h == r.hist
      len == Len(h.cost)
      it == r.inner   \* iterations of the last inner solve
  IN T(VEq(r.X[1], Prob.x0), "C06:initial-state") \cup T(feas, "C06:feasible")
     \cup T(VEq(r.t, Prob.t) /\ VEq(r.h, Prob.h), "C06:times")
     \cup T(r.inner <= s.o.maxInner, "C05:inner-limit") \cup T(~s.al \/ r.outer <= s.o.maxOuter, "C04:outer-limit")
     \cup T(HistOk(h, <<>>), "C13:lengths")
     \cup T(~(HistOk(h, <<>>) /\ r.ist = SOLVED) \/ (len >= 2 /\ NLt(h.dJ[len - 1], s.o.costTol) /\ NLt(h.grad[len - 1], s.o.gradTol)), "C05:truthful")
     \cup T(~(s.al /\ r.st = SOLVED) \/ (r.ist = SOLVED /\ NLt(Viol(Prob, r.X, r.U), NMul(s.o.conTol, "1.000001"))), "C04:truthful")
     \cup T(~(s.al /\ r.st = MAXPEN) \/ NGt(MaxPen(r.pen), s.o.maxPen), "C04:truthful")
     \cup T(~(s.al /\ r.st = MAXOUTER) \/ r.outer >= s.o.maxOuter, "C04:truthful")
     \cup T(~(r.st = MAXTOTAL) \/ r.total >= s.o.maxTotal, IF s.al THEN "C04:truthful" ELSE "C05:truthful")
     \cup T(~(r.ist = MAXINNER) \/ r.inner >= s.o.maxInner, "C05:truthful")
     \cup T(~s.al \/ r.ist = SOLVED \/ r.st = r.ist, "C04:inner-failure")
(* the recorded cost of the solution is the sum of its stage costs, with the multipliers the last inner solve used *)
CostRow(r) == r.hist.cost[Len(r.hist.cost)]
EndTags(r) ==
  T(XEq(r.X, s.X) /\ XEq(r.U, s.U), "C06:end") \cup T(r.ist = s.st, "C05:end-status") \cup T(r.st = (IF s.al THEN s.alst ELSE s.st), IF s.al THEN "C04:end-status" ELSE "C05:end-status")
  \cup T(r.inner = s.inner /\ r.total = s.total, "C05:end-count") \cup T(~s.al \/ r.outer = s.outer, "C04:outer-count")
  \cup T(HistOk(r.hist, s.rows) => HistSame(r.hist, s.rows), "C13:history") \cup T(NEq(r.J0, s.J0), "C13:initial-cost")
  \cup T(~s.al \/ (LEq(r.lam, s.lam) /\ LEq(r.pen, s.pen)), "C10:end")
(* no outer iteration allowed: nothing happens, and nothing is reported that an earlier solve left *)
NothingDone(r) ==
  T(r.st = UNSOLVED, "C04:end-status") \cup T(XEq(r.X, s.X) /\ XEq(r.U, s.U), "C06:end")
  \cup T(r.outer = 0 /\ r.total = 0, "C04:outer-count") \cup T(HistOk(r.hist, s.rows) => HistSame(r.hist, s.rows), "C13:history")
End(e) == Out([s EXCEPT !.res = e.res], IF s.al /\ s.o.maxOuter = 0 THEN NothingDone(e.res) ELSE FinalTags(e.res) \cup EndTags(e.res))

HClose(a, b) == VCloseTol(a, b, "1e-7", "1e-7")
(* a complete solve on a solver of its own must do what the steps did; a further one the same again *)
Whole(e) ==
  LET r == e.res  b == s.res
      xs == XClose(r.X, b.X) /\ XClose(r.U, b.U)
      cnt == r.inner = b.inner /\ r.total = b.total /\ (~s.al \/ r.outer = b.outer)
      hs == Len(r.hist.cost) = Len(b.hist.cost) /\ HClose(r.hist.cost, b.hist.cost) /\ HClose(r.hist.dJ, b.hist.dJ) /\ HClose(r.hist.grad, b.hist.grad)
            /\ HClose(r.hist.alpha, b.hist.alpha) /\ HClose(r.hist.reg, b.hist.reg) /\ HClose(r.hist.viol, b.hist.viol) /\ HClose(r.hist.pen, b.hist.pen)
            /\ NClose(r.J0, b.J0, RT, AT)
      g == IF e.first THEN IF s.al THEN "C04" ELSE "C05" ELSE "C14"
  IN Out(s, FinalTags(r)
         \cup T(r.st = b.st /\ r.ist = b.ist, g \o ":whole-status") \cup T(cnt, g \o ":whole-count") \cup T(xs, g \o ":whole-trajectory")
         \cup T(hs, IF e.first THEN "C13:whole-history" ELSE "C14:whole-history")
         \cup T(~s.al \/ (LClose(r.lam, b.lam) /\ LClose(r.pen, b.pen)), IF e.first THEN "C10:whole" ELSE "C14:whole-duals"))
Again(e) == Out([s EXCEPT !.o = e.opts, !.X = e.X, !.U = e.U], {})
Tweak(e) == Out([s EXCEPT !.o = e.opts], {})     \* options may change between the steps of a solve

(* ------------------------------------------------------------------ queries *)
Info(P, X, U) ==
  Flatten([k \in AllK(P) |-> [j \in 1..Len(Cons(P, k)) |->
     [label |-> Cons(P, k)[j].label, index |-> k - 1, viol |-> ViolVec(Cons(P, k)[j], ConVal(Cons(P, k)[j], X[k], U[k]))]]])
InfoEq(a, b) == a.label = b.label /\ a.index = b.index /\ VClose(a.viol, b.viol)
                /\ a.str = b.label \o " at index " \o ToString(b.index) \o ": "
SameInfo(a, b) == a.label = b.label /\ a.index = b.index /\ VEq(a.viol, b.viol)
Count(q, x) == Cardinality({j \in 1..Len(q) : InfoEq(x, q[j])})
Query(e) ==
  LET D == Dists(Prob, e.X, e.U)
      I == Strict(Info(Prob, e.X, e.U))
      cnt == [k \in AllK(Prob) |-> Len(DistsAt(Prob, k, e.X[k], e.U[k]))]
      srt == \A j \in 1..(Len(e.sorted) - 1) : NGe(VMaxAbs(e.sorted[j].viol), VMaxAbs(e.sorted[j + 1].viol))
      same == Len(e.sorted) = Len(I) /\ \A j \in 1..Len(e.sorted) :
                Cardinality({l \in 1..Len(I) : InfoEq(e.sorted[j], I[l])}) = 0 => FALSE
      multi == \A l \in 1..Len(e.info) : Cardinality({j \in 1..Len(e.sorted) : SameInfo(e.sorted[j], e.info[l])}) = Cardinality({j \in 1..Len(e.info) : SameInfo(e.info[j], e.info[l])})
  IN Out(s, T(Close(e.vinf, VMaxAbs(D)) /\ Close(e.vinf2, VMaxAbs(D)), "C12:max-violation")
         \cup T(Close(e.v1, NSum(D)) /\ Close(e.v2, NSqrt(VSq(D))), "C12:norm")
         \cup T(Close(e.vown, Viol(Prob, s.X, s.U)), "C12:own-violation")
         \cup T(Len(e.info) = Len(I) /\ \A j \in 1..Len(I) : InfoEq(e.info[j], I[j]), "C12:info")
         \cup T(same /\ multi /\ srt, "C12:sorted-info")
         \cup T(e.cnt = cnt /\ e.tot = Len(D), "C12:count")
         \cup T(NEq(e.maxpen, MaxPen(s.pen)), "C13:max-penalty"))
AlEval(e) ==
  LET k == e.k
      J == StageAug(Prob, k, e.x, e.u, s.lam, s.pen)
      m == AugExp(Prob, k, e.x, e.u, s.lam, s.pen)
      kink == Kink(Prob, k, e.x, e.u, s.lam, s.pen)
  IN Out(s, T(Close(e.J, J) \/ NClose(e.J, J, RT, NMul("1e-12", StageMag(Prob, k, e.x, e.u, s.lam, s.pen))), "C11:value")
         \cup T(VCloseG(Prob, k, e.x, e.u, s.lam, s.pen, e.dx, m.x) /\ VCloseG(Prob, k, e.x, e.u, s.lam, s.pen, e.du, m.u), "C11:gradient")
         \cup T(kink \/ (MCloseS(e.xx, m.xx) /\ MCloseS(e.xu, m.xu) /\ MCloseS(e.uu, m.uu)), "C11:hessian"))
AlSame(e) == Out(s, T(LEq(e.lam, s.lam) /\ LEq(e.pen, s.pen), "C11:unaltered"))

(* ------------------------------------------------------------------ solving again *)
(* A solve is a function of options, initial guess and initial state only: whatever the solver did before, and      *)
(* whether it was moved, threads, verbosity and profiling included.                                                   *)
Ref(e) == Out([s EXCEPT !.memo = [j \in 1..e.key |-> IF j = e.key THEN e.res ELSE @[j]]],
              T(VEq(e.res.X[1], e.x0), "C15:initial-state"))
Resolve(e) ==
  LET b == s.memo[e.key]  r == e.res
      g == IF e.moved THEN "C14:moved-" ELSE IF e.n = 1 THEN "C14:first-" ELSE "C14:again-"
      rest == r = b
      tags == T(r.st = b.st /\ r.ist = b.ist, g \o "status") \cup T(r.X = b.X /\ r.U = b.U /\ r.t = b.t /\ r.h = b.h, g \o "trajectory")
              \cup T(r.inner = b.inner /\ r.total = b.total /\ r.outer = b.outer, g \o "count")
              \cup T(r.hist = b.hist, g \o "history")
  IN Out(s, (IF tags = {} THEN T(rest, g \o "result") ELSE tags) \cup T(VEq(r.X[1], e.x0), "C15:initial-state")
            \cup T(~e.prof \/ tags = {}, "C19:results"))

CrashTag(o) ==
  CASE o \in {"again", "move", "settraj", "steps", "assign"} -> "C14:crash"
    [] o \in {"setup", "done", "solve"} -> "C05:crash" [] o = "rollout" -> "C06:crash" [] o = "cost" -> CostTag(s) \o "-crash"
    [] o = "expand" -> "C03:crash" [] o = "bp" -> "C08:crash" [] o = "fp" -> "C07:crash" [] o = "stats" -> "C13:crash"
    [] o \in {"alinit", "duals", "pens", "perturb"} -> "C10:crash" [] o \in {"alstats", "aldone", "alsolve"} -> "C04:crash"
    [] o = "query" -> "C12:crash" [] o = "aleval" -> "C11:crash" [] OTHER -> "C22:crash"

Step(e) ==
  CASE e.e = "start" -> Start(e) [] e.e = "setall" -> SetAll(e) [] e.e = "setone" -> SetOne(e) [] e.e = "userlam" -> UserLam(e)
    [] e.e = "alinit" -> AlInit(e) [] e.e = "reset" -> Reset(e) [] e.e = "setup" -> Setup(e) [] e.e = "rollout" -> Rollout(e)
    [] e.e = "cost" -> Cost(e) [] e.e = "expand" -> Expand(e) [] e.e = "bp" -> Bp(e) [] e.e = "fp" -> Fp(e)
    [] e.e = "stats" -> Stats(e) [] e.e = "done" -> Done(e) [] e.e = "duals" -> Duals(e) [] e.e = "alstats" -> AlStats(e)
    [] e.e = "aldone" -> AlDone(e) [] e.e = "pens" -> Pens(e) [] e.e = "end" -> End(e) [] e.e = "whole" -> Whole(e)
    [] e.e = "again" -> Again(e) [] e.e = "query" -> Query(e) [] e.e = "aleval" -> AlEval(e) [] e.e = "alsame" -> AlSame(e)
    [] e.e = "tweak" -> Tweak(e) [] e.e = "ref" -> Ref(e) [] e.e = "resolve" -> Resolve(e)
    [] e.e = "crash" -> Out([s EXCEPT !.live = FALSE], {CrashTag(e.op), "C22:crash"})

Init == tr \in 1..Len(Traces) /\ i = 0 /\ s = [live |-> TRUE, al |-> FALSE, memo |-> <<>>]
Next ==
  /\ i < Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[i + 1]
         r == IF s.live THEN Step(e) ELSE Out(s, {})
     IN /\ \A t \in r.t : PrintT(<<"REJECT", t, Traces[tr].id, i + 1>>)
        /\ (s.live /\ ~r.s.live => PrintT(<<"NOTE", "cut", Traces[tr].id>>))
        /\ s' = r.s
        /\ (i + 1 = Len(Traces[tr].ev) => PrintT(<<"DONE", Traces[tr].id, i + 1>>))
  /\ i' = i + 1
  /\ tr' = tr
Spec == Init /\ [][Next]_vars
View == <<tr, i>>
=============================================================================
