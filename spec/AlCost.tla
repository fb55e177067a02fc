-------------------------------- MODULE AlCost --------------------------------
(* Augmented costs as objects: lists of constraints with multipliers, penalties, scalings and the constraint value of  *)
(* the point evaluated last (C10, C11, C12), and the cones with their projections (C11).                                *)
EXTENDS Poly, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
T(ok, tag) == IF ok THEN {} ELSE {tag}
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = [n |-> 0, m |-> 0, cost |-> 0, eq |-> <<>>, ineq |-> <<>>]

Rows(v) == Len(v.con.e)
Fresh(con) == [con |-> con, lam |-> VZero(Len(con.e)), pen |-> [k \in 1..Len(con.e) |-> 1], phi |-> 10, c |-> VZero(Len(con.e))]
All(st) == st.eq \o st.ineq
MapAll(st, F(_)) == [st EXCEPT !.eq = [k \in 1..Len(@) |-> F(@[k])], !.ineq = [k \in 1..Len(@) |-> F(@[k])]]
At(v, x, u) == [v EXCEPT !.c = ConVal(v.con, x, u)]
(* the problem with one knot point these constraints make *)
Prob(st) == [con |-> <<[k \in 1..Len(All(st)) |-> All(st)[k].con]>>, cost |-> <<st.cost>>]
Lam(st) == <<[k \in 1..Len(All(st)) |-> All(st)[k].lam]>>
Pen(st) == <<[k \in 1..Len(All(st)) |-> All(st)[k].pen]>>

(* rows with different penalties take part in the updates; the augmented cost is that of one penalty per constraint *)
Uniform(st) == \A k \in 1..Len(All(st)) : \A j \in 1..Len(All(st)[k].pen) : NEq(All(st)[k].pen[j], All(st)[k].pen[1])
Value(e, st) == LET want == StageAug(Prob(st), 1, e.x, e.u, Lam(st), Pen(st))
                IN Close(e.J, want) \/ NClose(e.J, want, 0, NMul("1e-11", StageMag(Prob(st), 1, e.x, e.u, Lam(st), Pen(st))))
EvalTags(e, st) ==
  CASE ~Uniform(st) -> {}
    [] e.w = 0 -> T(Value(e, st), "C11:alcost-value")
    [] e.w = 1 -> LET g == AugExp(Prob(st), 1, e.x, e.u, Lam(st), Pen(st)) IN T(VCloseS(e.dx, g.x) /\ VCloseS(e.du, g.u), "C11:alcost-gradient")
    [] e.w = 2 -> IF Kink(Prob(st), 1, e.x, e.u, Lam(st), Pen(st)) THEN {}
                  ELSE LET g == AugExp(Prob(st), 1, e.x, e.u, Lam(st), Pen(st))
                       IN T(MCloseS(e.xx, g.xx) /\ MCloseS(e.xu, g.xu) /\ MCloseS(e.uu, g.uu), "C11:alcost-hessian")
(* a constraint by itself: no cost, no other constraints *)
NoCost(st) == [Q |-> MZero(st.n, st.n), R |-> MZero(st.m, st.m), H |-> MZero(st.n, st.m), q |-> VZero(st.n), r |-> VZero(st.m), c |-> 0, g |-> 0, s |-> 0, pi |-> 1, qi |-> 1]
Alone(st, v) == [st EXCEPT !.cost = NoCost(st), !.eq = <<v>>, !.ineq = <<>>]
OneTags(e, st, v) ==
  IF e.w < 3 THEN EvalTags(e, Alone(st, v))
  ELSE T(VClose(e.c, ConVal(v.con, e.x, e.u)), "C11:constraint-value")
       \cup T(LET Jx == ConJx(v.con, e.x, e.u) Ju == ConJu(v.con, e.x, e.u) IN MClose(e.jac, [k \in 1..Len(Jx) |-> Jx[k] \o Ju[k]]), "C11:constraint-jacobian")
       \cup T(e.n = st.n /\ e.m = st.m, "C11:dimensions")

NSqrtClose(v, sq) == NClose(NMul(v, v), sq, "1e-9", "1e-18")
DistOf(v) == DistVec(v.con, v.c)
InfoViol(v, w) == Len(w) = Rows(v) /\ \A k \in 1..Rows(v) : NClose(w[k], ViolVec(v.con, v.c)[k], "1e-9", "1e-9")
TypeName(v) == IF v.con.type = "eq" THEN "Equality Constraint" ELSE "Inequality Constraint"
ListTags(got, want) ==
  IF Len(got) # Len(want) THEN {"C12:constraint-count"}
  ELSE UNION {LET g == got[k] w == want[k] IN
        T(VClose(g.lam, w.lam), "C10:multipliers") \cup T(VClose(g.pen, w.pen), "C10:penalties") \cup T(NEq(g.phi, w.phi), "C10:scaling")
        \cup T(VClose(g.c, w.c), "C12:constraint-value") \cup T(Close(g.v, VMaxAbs(DistOf(w))), "C12:violation-of-constraint")
        \cup T(Close(g.p, VMaxAbs(w.pen)), "C10:max-penalty") \cup T(InfoViol(w, g.viol), "C12:violation-vector") : k \in 1..Len(got)}
StateTags(e, st) ==
  LET a == All(st)
      d == Flatten([k \in 1..Len(a) |-> DistOf(a[k])])
      rows == Len(d)
      inf == IF e.pre THEN Tail(e.info) ELSE e.info
  IN ListTags(e.eq, st.eq) \cup ListTags(e.ineq, st.ineq)
     \cup T(Close(e.vinf, VMaxAbs(d)) /\ Close(e.v1, NSum(d)) /\ NSqrtClose(e.v2, NDot(d, d)), "C12:max-violation")
     \cup T(Close(e.maxpen, VMaxAbs(Flatten([k \in 1..Len(a) |-> a[k].pen]))), "C10:max-penalty")
     \cup T(e.num = rows /\ e.neq = Len(st.eq) /\ e.nin = Len(st.ineq), "C12:constraint-count")
     \cup T(e.n = st.n /\ e.m = st.m, "C11:dimensions")
     \cup T((e.pre => e.info[1].label = "first") /\ Len(inf) = Len(a)
            /\ \A k \in 1..Len(a) : k > Len(inf) \/ (inf[k].label = a[k].con.label /\ inf[k].type = TypeName(a[k]) /\ InfoViol(a[k], inf[k].viol)), "C12:constraint-info")

Sub(st, ty) == IF ty = "eq" THEN st.eq ELSE st.ineq
Put(st, ty, l) == IF ty = "eq" THEN [st EXCEPT !.eq = l] ELSE [st EXCEPT !.ineq = l]
Upd(st, ty, j, F(_)) == LET l == Sub(st, ty) IN Put(st, ty, [k \in 1..Len(l) |-> IF j < 0 \/ k = j + 1 THEN F(l[k]) ELSE l[k]])

ConeTags(e) ==
  LET P(v) == CASE e.cone = "zero" -> 0 [] e.cone = "all" -> v [] e.cone = "neg" -> NMin(0, v)
      D == 1..Len(e.x)
      Diag(v, g) == CASE e.cone = "zero" -> NEq(g, 0) [] e.cone = "all" -> NEq(g, 1)
                      [] e.cone = "neg" -> IF NEq(v, 0) THEN NLe(0, g) /\ NLe(g, 1) ELSE NEq(g, IF NLt(v, 0) THEN 1 ELSE 0)
  IN T(\A k \in D : NEq(e.p[k], P(e.x[k])) /\ NEq(e.q[k], P(e.x[k])), "C11:cone-projection")
     \cup T(\A k \in D : \A l \in D : IF k = l THEN Diag(e.x[k], e.J[k][k]) ELSE NEq(e.J[k][l], 0), "C11:cone-jacobian")
     \cup T(\A k \in D : \A l \in D : NEq(e.H[k][l], 0), "C11:cone-hessian")

Step(e) ==
  CASE e.e = "new" -> [s |-> [s EXCEPT !.n = e.n, !.m = e.m], t |-> {}]
    [] e.e = "cost" -> [s |-> [s EXCEPT !.cost = e.P], t |-> {}]
    [] e.e = "list" -> [s |-> Put(s, e.type, [k \in 1..Len(e.L) |-> Fresh(e.L[k])]), t |-> {}]
    [] e.e = "pen" -> LET F(v) == [v EXCEPT !.pen = [k \in 1..Len(@) |-> e.v]] IN [s |-> Upd(s, e.type, e.i, F), t |-> {}]
    [] e.e = "penvec" -> LET F(v) == [v EXCEPT !.pen = e.v] IN [s |-> Upd(s, e.type, e.i, F), t |-> {}]
    [] e.e = "scale" -> LET F(v) == [v EXCEPT !.phi = e.v] IN [s |-> Upd(s, e.type, e.i, F), t |-> {}]
    [] e.e = "lam" -> LET F(v) == [v EXCEPT !.lam = e.v] IN [s |-> Upd(s, e.type, e.i, F), t |-> {}]
    [] e.e = "eval" -> LET F(v) == At(v, e.x, e.u) IN [s |-> MapAll(s, F), t |-> EvalTags(e, s)]
    [] e.e = "one" -> LET F(v) == At(v, e.x, e.u) IN [s |-> Upd(s, e.type, e.i, F), t |-> OneTags(e, s, Sub(s, e.type)[e.i + 1])]
    [] e.e = "duals" -> LET F(v) == [v EXCEPT !.lam = Rnd([k \in 1..Len(@) |-> DualProj(v.con.type, NSub(@[k], NMul(v.pen[k], v.c[k])))])] IN [s |-> MapAll(s, F), t |-> {}]
    [] e.e = "penalties" -> LET F(v) == [v EXCEPT !.pen = Rnd([k \in 1..Len(@) |-> NMul(v.phi, @[k])])] IN [s |-> MapAll(s, F), t |-> {}]
    [] e.e = "reset" -> LET F(v) == [v EXCEPT !.lam = VZero(Len(@))] IN [s |-> MapAll(s, F), t |-> {}]
    [] e.e = "state" -> [s |-> s, t |-> StateTags(e, s)]
    [] e.e = "cone" -> [s |-> s, t |-> ConeTags(e)]
    [] e.e = "crash" -> [s |-> s, t |-> {"C10:alcost-" \o e.how, "C11:alcost-" \o e.how, "C12:alcost-" \o e.how}]

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(Ev[i]) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
