------------------------------ MODULE Control ------------------------------
(* The control structure of the solvers as a transition system: iLQR's iterations (backward pass with its          *)
(* regularization schedule, line search, statistics, termination) inside the augmented Lagrangian's outer          *)
(* iterations (multipliers, penalties, termination), over sequences of solves on the same solver.                   *)
(*                                                                                                                  *)
(* The problem is what the environment chooses while the solver runs: one control u at the first time step, and     *)
(* for every control value the solver visits a cost, a constraint value, whether the state gets out of bounds,       *)
(* and the slope and curvature of the cost.  The choices made in a behaviour form a table that is a problem the     *)
(* real solvers can be run on (harness/replay.cpp); the behaviour says what they must do on it.                      *)
(* TLC explores the choices, checks the invariants below in every state, and prints each behaviour as a test.       *)
EXTENDS Decide, Json, IOUtils

VARIABLE c
CONSTANTS OptIdx, Als, MaxSolves, EmitMode

(* ------------------------------------------------------------------ options *)
B == [maxTotal |-> 5, maxOuter |-> 2, maxInner |-> 3, costTol |-> 2, gradTol |-> "1/1024", regFactor |-> 2, regInit |-> 0,
      regMax |-> 8, regMin |-> "1/128", regFail |-> 3, bounds |-> TRUE, stateMax |-> 100000000, controlMax |-> 111,
      lsMax |-> 3, lsLo |-> "1/64", lsHi |-> 10, lsFactor |-> 2, conTol |-> "1/1024", maxPen |-> 50, initPen |-> 1, resetDuals |-> TRUE]
Options == <<
  B,
  [B EXCEPT !.regMax = "1/32", !.regFail = 2, !.maxInner = 4, !.maxTotal = 20, !.maxOuter = 3],
  [B EXCEPT !.maxInner = 2, !.maxTotal = 3, !.maxOuter = 3, !.maxPen = 10],
  [B EXCEPT !.lsMax = 1, !.lsFactor = 4, !.lsLo = 0, !.regInit = "1/2", !.regFactor = "3/2", !.regFail = 1, !.regMax = 1],
  [B EXCEPT !.bounds = FALSE, !.initPen = 4, !.maxPen = 40, !.resetDuals = FALSE],
  [B EXCEPT !.maxInner = 1, !.maxTotal = 2, !.maxPen = 1, !.conTol = "1/4", !.gradTol = 1, !.initPen = 0, !.resetDuals = FALSE],
  [B EXCEPT !.maxInner = 6, !.maxTotal = 30, !.maxOuter = 4, !.costTol = 100, !.maxPen = 1000, !.regInit = 2, !.regMin = "1/4", !.lsMax = 2, !.initPen = 2]
>>
Phi == 10     \* penalty scaling, the library's default

(* ------------------------------------------------------------------ the visible state *)
CT == IF c.eq THEN "eq" ELSE "ineq"
AlTerm(ty, v, l, r) == NDiv(NSub(Sq(DualProj(ty, NSub(l, NMul(r, v)))), Sq(l)), NMul(2, r))
CostOf(d, e) == IF d.al THEN NDouble(NAdd(e.jt, AlTerm(IF d.eq THEN "eq" ELSE "ineq", e.c, d.lam, d.pen))) ELSE e.jt
Cur(d) == d.tab[d.cur]
ViolOf(d) == IF d.al THEN Dist(IF d.eq THEN "eq" ELSE "ineq", Cur(d).c) ELSE 0
Near(a, b) == NClose(a, b, 0, NMul("1e-11", NAdd(1, NAbs(b))))
Find(d, u) == {j \in 1..Len(d.tab) : Near(d.tab[j].u, u)}
Point(u, x, jt, cv) == [u |-> u, x |-> x, jt |-> jt, c |-> cv, cl |-> "", lu |-> 0, luu |-> 1]
(* comparisons too close to call for a computation in doubles are not part of the model *)
TooClose(a, b) == ~NEq(a, b) /\ NClose(a, b, "1e-5", "1e-12")

Start == [phase |-> "new", bad |-> FALSE, o |-> 0, al |-> FALSE, eq |-> FALSE, tab |-> <<>>, cur |-> 1, rho |-> 0, drho |-> 0, st |-> UNSOLVED,
          alst |-> UNSOLVED, inner |-> 0, total |-> 0, outer |-> 0, rows |-> <<>>, J0 |-> 0, Jc |-> 0, lam |-> 0, pen |-> 1, j |-> 0, alpha |-> 1,
          d |-> 0, dv1 |-> 0, dv2 |-> 0, dJ |-> 0, grad |-> 0, failed |-> FALSE, calls |-> <<>>, want |-> <<>>, fresh |-> FALSE]

(* ------------------------------------------------------------------ begin a solve *)
InnerSetup(d) == [d EXCEPT !.phase = "iter", !.inner = 0, !.rho = d.o.regInit, !.drho = 0, !.st = UNSOLVED, !.failed = FALSE, !.J0 = CostOf(d, Cur(d))]
Begin(d, al, eq, oi, guess) ==
  LET o == Options[oi]
      d1 == [d EXCEPT !.al = al, !.eq = eq, !.o = o, !.cur = IF guess = "zero" THEN 1 ELSE @, !.total = 0, !.outer = 0, !.rows = <<>>, !.alst = UNSOLVED,
                      !.lam = IF o.resetDuals THEN 0 ELSE @, !.pen = IF NGt(o.initPen, 0) THEN o.initPen ELSE @,
                      !.calls = Append(@, [o |-> o, zero |-> guess = "zero"])]
      d2 == IF al THEN [d1 EXCEPT !.rows = <<[ZeroRow EXCEPT !.viol = ViolOf(d1), !.pen = d1.pen]>>] ELSE d1
  IN InnerSetup(d2)
First(al, eq, oi, cv) == Begin([Start EXCEPT !.tab = <<Point(0, 0, 0, cv)>>], al, eq, oi, "zero")

(* ------------------------------------------------------------------ end of an inner solve *)
Result(d) == [st |-> IF d.al THEN d.alst ELSE d.st, ist |-> d.st, inner |-> d.inner, total |-> d.total, outer |-> d.outer, J0 |-> d.J0,
              u |-> Cur(d).u, x |-> Cur(d).x, rows |-> d.rows, lam |-> d.lam, pen |-> d.pen, rho |-> d.rho]
Finish(d) == [d EXCEPT !.phase = "idle", !.want = Append(@, Result(d))]
Wrap(d) ==
  IF ~d.al THEN Finish(d)
  ELSE LET lam == NDouble(DualProj(IF d.eq THEN "eq" ELSE "ineq", NDouble(NSub(d.lam, NDouble(NMul(d.pen, Cur(d).c))))))
           d1 == [d EXCEPT !.lam = lam, !.outer = @ + 1, !.rows = SetLast(Rows0(@), [Last(Rows0(@)) EXCEPT !.viol = ViolOf(d), !.pen = d.pen])]
           s == AlDoneStatus(d.o, d.st, ViolOf(d), d.pen, d1.outer, d.total)
           amb == TooClose(ViolOf(d), d.o.conTol)
       IN IF amb THEN [d1 EXCEPT !.bad = TRUE]
          ELSE IF s # UNSOLVED THEN Finish([d1 EXCEPT !.alst = s])
          ELSE InnerSetup([d1 EXCEPT !.pen = NDouble(NMul(@, Phi))])

(* ------------------------------------------------------------------ expansion and backward pass *)
Classes == {"norm", "back", "conv", "sharp", "flat", "big", "huge", "neg1", "neg2", "never"}
Shape(d, cl) ==   \* <<slope, curvature>>
  LET r1 == Increase(d.o, [rho |-> d.rho, drho |-> d.drho])
      r2 == Increase(d.o, r1)
      mid(a, b) == NMul("1/2", NAdd(a, b))
  IN CASE cl = "norm" -> <<10, 1>> [] cl = "back" -> <<-10, 1>> [] cl = "conv" -> <<"1/16384", 1>> [] cl = "flat" -> <<0, 1>>
       [] cl = "sharp" -> <<"100000000", "100000000000000">> [] cl = "big" -> <<300, 1>> [] cl = "huge" -> <<"4000", 1>>
       [] cl = "neg1" -> <<NDouble(NMul(5, NSub(r1.rho, d.rho))), NDouble(NNeg(mid(d.rho, r1.rho)))>>
       [] cl = "neg2" -> <<NDouble(NMul(5, NSub(r2.rho, r1.rho))), NDouble(NNeg(mid(r1.rho, r2.rho)))>>
       [] cl = "never" -> <<1, -1000000000>>
M1(v) == <<<<v>>>>
Expand(d, cl) ==
  LET sh == Shape(d, cl)
      d0 == IF Cur(d).cl # "" THEN d ELSE [d EXCEPT !.tab[d.cur] = [@ EXCEPT !.cl = cl, !.lu = sh[1], !.luu = sh[2]]]
      e == Cur(d0)
      E ==  <<[x |-> <<0>>, u |-> <<e.lu>>, xx |-> M1(0), xu |-> M1(0), uu |-> M1(e.luu), A |-> M1(0), B |-> M1(0)],
              [x |-> <<0>>, u |-> <<0>>, xx |-> M1(0), xu |-> M1(0), uu |-> M1(0), A |-> M1(0), B |-> M1(0)]>>
      b == Strict(Backward(d0.o, E, [rho |-> d0.rho, drho |-> d0.drho]))
      r1 == Decrease(d0.o, b.reg)
      d1 == [d0 EXCEPT !.rho = r1.rho, !.drho = r1.drho, !.rows = SetLast(Rows0(@), [Last(Rows0(@)) EXCEPT !.reg = b.reg.rho]), !.Jc = CostOf(d0, e)]
  IN IF b.amb THEN [d0 EXCEPT !.bad = TRUE]
     ELSE IF ~b.ok THEN Wrap([d1 EXCEPT !.st = BPFAILED, !.failed = TRUE])
     ELSE [d1 EXCEPT !.phase = "ls", !.j = 0, !.alpha = 1, !.d = b.g[1].d[1], !.dv1 = b.g[1].dv1, !.dv2 = b.g[1].dv2]

(* ------------------------------------------------------------------ line search *)
(* statistics, convergence *)
EndIter(d) ==
  LET n == Cur(d)
      prev == IF d.inner = 0 THEN d.J0 ELSE d.rows[Len(d.rows) - 1].cost
      dJ == NDouble(NSub(prev, Last(d.rows).cost))
      grad == NDouble(NDiv(NDiv(NAbs(d.d), NAdd(1, NAbs(n.u))), 2))     \* the second time step's control never moves
      row == [Last(d.rows) EXCEPT !.dJ = dJ, !.grad = grad, !.viol = ViolOf(d)]
      d1 == [d EXCEPT !.rows = Append(SetLast(@, row), row), !.inner = @ + 1, !.total = @ + 1, !.dJ = dJ, !.grad = grad]
      s == IlqrDone(d.o, d.st, dJ, grad, d1.inner, d1.total)
  IN IF TooClose(dJ, d.o.costTol) \/ TooClose(grad, d.o.gradTol) THEN [d1 EXCEPT !.bad = TRUE]
     ELSE IF s # UNSOLVED THEN Wrap([d1 EXCEPT !.st = s])
     ELSE [d1 EXCEPT !.phase = "iter"]
Accept(d, j, J, z) ==
  EndIter([d EXCEPT !.cur = j, !.st = UNSOLVED, !.failed = FALSE, !.rows = SetLast(@, [Last(@) EXCEPT !.cost = J, !.alpha = d.alpha, !.z = z])])
Reject(d, st) ==
  IF d.j + 1 < d.o.lsMax THEN [d EXCEPT !.st = st, !.j = @ + 1, !.alpha = NDouble(NDiv(@, d.o.lsFactor))]
  ELSE LET r == Increase(d.o, [rho |-> d.rho, drho |-> d.drho])
       IN EndIter([d EXCEPT !.st = st, !.failed = TRUE, !.rho = r.rho, !.drho = r.drho, !.rows = SetLast(@, [Last(@) EXCEPT !.cost = d.Jc])])
(* the step to table entry j *)
Outcome(d, j) ==
  LET e == d.tab[j]
      J == CostOf(d, e)
      ex == NDouble(NNeg(NMul(d.alpha, NAdd(d.dv1, NMul(d.alpha, d.dv2)))))
      a == NSub(d.Jc, J)
      z == IF NGt(ex, 0) THEN NDouble(NDiv(a, ex)) ELSE -1
      edge == d.o.bounds /\ NClose(NAbs(e.u), d.o.controlMax, "1e-9", 0)
      fuzzy == edge \/ TooClose(z, d.o.lsLo) \/ TooClose(z, d.o.lsHi) \/ (j # d.cur /\ ~NEq(J, d.Jc) /\ NClose(J, d.Jc, "1e-12", "1e-12"))
               \/ (j # d.cur /\ NEq(J, d.Jc) /\ d.al /\ ~NEq(e.c, Cur(d).c))
  IN IF d.o.bounds /\ NGt(NAbs(e.x), d.o.stateMax) THEN Reject(d, STATELIMIT)
     ELSE IF ~edge /\ d.o.bounds /\ NGt(NAbs(e.u), d.o.controlMax) THEN Reject(d, CONTROLLIMIT)
     ELSE IF fuzzy THEN [d EXCEPT !.bad = TRUE]
     ELSE IF NLe(d.o.lsLo, z) /\ NLe(z, d.o.lsHi) /\ NLt(J, d.Jc) THEN Accept(d, j, J, z)
     ELSE Reject(d, UNSOLVED)

(* what the environment can let a step to a new control value do: decrease the cost by z times the expected amount, ... *)
Zs == {"1/2", "1", "1/32", "1/128", "9", "12"}
Kinds == Zs \cup {"equal", "up", "state", "down", "stateup"}
ConChoices(d) == IF ~d.al THEN {"0"} ELSE {"1/2", "-1/2", "1/1048576", "-3/4"}
Candidate(d) == NDouble(NAdd(Cur(d).u, NDouble(NMul(d.alpha, d.d))))
Make(d, k, cv) ==
  LET u == Candidate(d)
      ex == NNeg(NMul(d.alpha, NAdd(d.dv1, NMul(d.alpha, d.dv2))))
      al(v) == IF d.al THEN AlTerm(CT, v, d.lam, d.pen) ELSE 0
      J == CASE k \in {"up", "stateup"} -> NAdd(d.Jc, 1) [] k = "down" -> NSub(d.Jc, 1) [] k = "equal" -> d.Jc [] k = "state" -> NSub(d.Jc, NMul("1/2", ex)) [] OTHER -> NSub(d.Jc, NMul(k, ex))
      jt == IF k = "equal" THEN Cur(d).jt ELSE NDouble(NSub(J, al(cv)))
  IN Point(u, IF k \in {"state", "stateup"} THEN 1000000000 ELSE 0, jt, IF k = "equal" THEN Cur(d).c ELSE cv)
Add(d, p) == [d EXCEPT !.tab = Append(@, p)]
Step(d, k, cv) == LET d1 == Add(d, Make(d, k, cv)) IN Outcome(d1, Len(d1.tab))
OverControl(d) == d.o.bounds /\ NGt(NAbs(Candidate(d)), d.o.controlMax)

(* ------------------------------------------------------------------ behaviours *)
(* a policy that brings any behaviour to its end *)
RECURSIVE Complete(_)
Complete(d) ==
  CASE d.bad \/ d.phase = "idle" -> d
    [] d.phase = "iter" -> Complete(Expand(d, "conv"))
    [] d.phase = "ls" -> LET f == Find(d, Candidate(d))
                         IN Complete(IF f # {} THEN Outcome(d, CHOOSE j \in f : TRUE) ELSE Step(d, "1/2", "1/1048576"))
Print1(d) == PrintT(<<"SCRIPT", ToJson([al |-> d.al, eq |-> d.eq, tab |-> d.tab, calls |-> d.calls, want |-> d.want])>>)
Emit(d) == IF EmitMode = "all" \/ (EmitMode = "end" /\ d.phase = "idle" /\ Len(d.want) = MaxSolves) THEN LET e == Strict(Complete(d)) IN e.bad \/ Print1(e) ELSE TRUE

(* every step uses up something that is limited: a trial, an inner iteration or an outer iteration.  So every solve ends. *)
Rank(d) == IF d.phase = "idle" THEN 0
           ELSE 1 + ((d.o.maxOuter - d.outer) * (d.o.maxInner + 1) + (d.o.maxInner - d.inner)) * (d.o.lsMax + 2) + (IF d.phase = "iter" THEN d.o.lsMax + 1 ELSE d.o.lsMax - d.j)
Progress(d) == c.phase \in {"iter", "ls"} => Rank(d) < Rank(c)
Go(d) == ~d.bad /\ c' = d /\ Assert(Progress(d), <<"no progress", c, d>>) /\ Emit(d)
Init == c = Start
Next ==
  \/ c.phase = "new" /\ \E al \in Als, oi \in OptIdx : \E eq \in (IF al THEN BOOLEAN ELSE {FALSE}), cv \in (IF al THEN {"1/2", "-1/2"} ELSE {"0"}) : Go(First(al, eq, oi, cv))
  \/ c.phase = "idle" /\ Len(c.want) < MaxSolves /\ \E oi \in OptIdx, g \in {"zero", "keep"} : Go(Begin(c, c.al, c.eq, oi, g))
  \/ c.phase = "iter" /\ \E cl \in (IF Cur(c).cl = "" THEN Classes ELSE {Cur(c).cl}) : Go(Expand(c, cl))
  \/ c.phase = "ls" /\ LET f == Find(c, Candidate(c))
                       IN IF f # {} THEN \E j \in f : Go(Outcome(c, j))
                          ELSE IF OverControl(c) THEN \E k \in {"1/2", "state"} : Go(Step(c, k, Cur(c).c))
                          ELSE \E k \in Kinds, cv \in ConChoices(c) :
                                 (k \in {"equal", "up", "12", "1/128", "state", "stateup"} => ~c.al \/ cv = "1/2") /\ Go(Step(c, k, cv))
Spec == Init /\ [][Next]_c /\ WF_c(Next)

(* states that differ in nothing that matters for what can happen next *)
View == IF c.phase = "new" THEN <<>> ELSE <<c.phase, c.al, c.eq, c.o, c.st, c.inner, c.total, c.outer, c.rho, c.drho, c.j, IF c.phase \in {"iter", "ls"} THEN Cur(c).cl ELSE "", Len(c.want), c.failed, c.pen>>
ViewAl == IF c.phase = "new" THEN <<>> ELSE <<c.phase, c.eq, c.o, c.st, c.inner = 0, c.total >= c.o.maxTotal, c.outer, c.j, Len(c.want), c.failed, c.pen,
            IF c.phase \in {"iter", "ls"} THEN <<NLt(ViolOf(c), c.o.conTol), NLt(Cur(c).c, 0)>> ELSE <<>>, NLt(c.lam, 0), NGt(c.lam, 0)>>

(* ------------------------------------------------------------------ invariants *)
Truthful(w, o) ==
  LET n == Len(w.rows)
  IN /\ w.ist = SOLVED => n >= 2 /\ NLt(w.rows[n - 1].dJ, o.costTol) /\ NLt(w.rows[n - 1].grad, o.gradTol)
     /\ w.ist = MAXINNER => w.inner >= o.maxInner
     /\ w.ist # UNSOLVED
     /\ w.inner <= o.maxInner
     /\ c.al => /\ w.st = SOLVED => w.ist = SOLVED /\ NLt(w.rows[n].viol, o.conTol)
                /\ w.st = MAXPEN => NGt(w.pen, o.maxPen)
                /\ w.st = MAXOUTER => w.outer >= o.maxOuter
                /\ w.st # UNSOLVED
                /\ w.outer <= o.maxOuter
     /\ w.st = MAXTOTAL => w.total >= o.maxTotal
     /\ ~c.al => w.st = w.ist
(* within one inner solve the recorded costs never increase, whatever the line search met *)
Monotone == \A j \in 1..Len(c.want) : LET w == c.want[j] IN \A k \in 2..(Len(w.rows) - 1) : ~c.al => NLe(w.rows[k].cost, w.rows[k - 1].cost)
Inv ==
  /\ ~c.bad
  /\ c.phase # "new" =>
       /\ NGe(c.rho, 0) /\ NLe(c.rho, NMax(c.o.regMax, c.o.regInit))
       /\ c.inner <= c.o.maxInner /\ (c.al => c.outer <= c.o.maxOuter)
       /\ (c.al /\ ~c.eq => NLe(c.lam, 0))
       /\ NGt(c.pen, 0)
       /\ \A j \in 1..Len(c.want) : Truthful(c.want[j], c.calls[j].o)
       /\ Monotone
       /\ (c.phase = "iter" => c.st = UNSOLVED)
       /\ (c.phase = "ls" => c.j < c.o.lsMax)
=============================================================================
