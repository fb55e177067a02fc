-------------------------------- MODULE Misuse --------------------------------
(* Preconditions (C22): a call is accepted exactly when its documented precondition holds in the state the earlier     *)
(* calls have left, otherwise it aborts with a diagnostic and leaves the object as it was.                              *)
(* Histories: one object (problem, solver, logger, pool) or a series of independent calls on sized objects.             *)
EXTENDS Num, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
T(ok, tag) == IF ok THEN {} ELSE {tag}
S0 == [f |-> "none"]
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = S0
Dynamic == -1
In(k, lo, hi) == lo <= k /\ k <= hi
Range(f) == {f[x] : x \in DOMAIN f}

(* ------------------------------ state of each kind of object ------------------------------ *)
NewProblem(N) == [f |-> "problem", N |-> N, cost |-> [k \in 0..N |-> 0], dyn |-> [k \in 0..N - 1 |-> 0], ncon |-> [k \in 0..N |-> 0]]
NewSolver(e) == [f |-> "solver", N |-> e.N, n |-> e.n, m |-> e.m, probs |-> <<>>, cur |-> -1, have |-> 0, traj |-> -1, inds |-> <<>>]
P(j) == s.probs[j + 1]
Fits(p) == (s.n # Dynamic => p.n = s.n) /\ (s.m # Dynamic => p.m = s.m)
Full(p) == p.missing = -1
TaskList(v, N) == Len(v) >= 2 /\ v[1] = 0 /\ v[Len(v)] = N + 1 /\ \A j \in 1..Len(v) - 1 : v[j] < v[j + 1]
Solvable == s.have = s.N + 1 /\ s.traj = s.N
RECURSIVE Tot(_)
Tot(q) == IF q = <<>> THEN 0 ELSE Head(q) + Tot(Tail(q))
NCon(p, k) == p.eq[k + 1] + 2 * p.in[k + 1]
NConAll(p) == Tot([k \in 1..p.N + 1 |-> NCon(p, k - 1)])
Count(p, k, eq) == IF eq THEN p.eq[k + 1] ELSE p.in[k + 1]
NumFun(p) == Tot(p.eq) + Tot(p.in)
Titles == Range(s.cols)
Insert(q, at, x) == SubSeq(q, 1, at) \o <<x>> \o SubSeq(q, at + 1, Len(q))

(* ------------------------------ preconditions ------------------------------ *)
Size(e) == (e.sn # Dynamic => e.n = e.sn) /\ (e.sm # Dynamic => e.m = e.sm)
Pre(e) ==
  CASE e.op = "cost" -> In(e.k, 0, s.N)
    [] e.op = "dyn" -> e.id # 0 /\ In(e.k, 0, s.N - 1) /\ (e.k = s.N - 1 => e.n > 0 /\ e.m > 0)
    [] e.op = "con" -> ~e.null /\ e.len > 0 /\ In(e.k, 0, s.N)
    [] e.op \in {"ncon", "getcost"} -> In(e.k, 0, s.N)
    [] e.op = "getdyn" -> In(e.k, 0, s.N - 1) /\ s.dyn[e.k] # 0
    [] e.op = "costs" -> \A j \in 0..Len(e.ids) - 1 : In(e.k + j, 0, s.N)
    [] e.op = "dyns" -> \A j \in 0..Len(e.ids) - 1 : In(e.k + j, 0, s.N - 1)
    (* solvers *)
    [] e.op \in {"ilqr-from", "al-from"} -> Full(P(e.p)) /\ Fits(P(e.p))
    [] e.op \in {"ilqr-init", "al-init"} -> P(e.p).N = s.N /\ Full(P(e.p)) /\ Fits(P(e.p))
    [] e.op = "ilqr-copy" -> In(e.a, 0, s.N) /\ In(e.b, 1, s.N + 1) /\ Full(P(e.p)) /\ (e.a < e.b => Fits(P(e.p)))
    [] e.op = "ilqr-kpf" -> In(e.k, 0, s.N)
    [] e.op \in {"ilqr-traj", "al-traj"} -> TRUE
    [] e.op = "ilqr-tasks" -> TaskList(e.inds, s.N)
    [] e.op \in {"ilqr-solve", "al-solve"} -> Solvable
    [] e.op = "ilqr-cost" -> s.traj = s.N
    [] e.op = "ilqr-exp" -> s.traj # -1
    [] e.op = "al-ncon" -> s.cur # -1 /\ In(e.k, 0, s.N)
    [] e.op = "al-total" -> s.cur # -1
    [] e.op = "al-pen" -> NLe(0, e.v) /\ (e.k # -1 => In(e.i, 0, Count(P(s.cur), e.k, e.eq) - 1))
    [] e.op = "al-scale" -> NLe(1, e.v) /\ (e.k # -1 => In(e.i, 0, Count(P(s.cur), e.k, e.eq) - 1))
    [] e.op = "alcost" -> In(e.k, 0, P(e.p).N) /\ e.there
    (* loggers *)
    [] e.op = "addentry" -> In(e.col, -Len(s.cols) - 1, Len(s.cols))
    [] e.op = "freq" -> e.v > 0
    [] e.op = "lower" -> NLe(e.v, s.hi[e.title])
    [] e.op = "upper" -> NLe(s.lo[e.title], e.v)
    (* sized objects, cones and functions *)
    [] e.op = "traj" -> e.x = e.u + 1 /\ e.t = e.x
    [] e.op = "size" -> Size(e)
    [] e.op = "random" -> e.sn # Dynamic /\ e.sm # Dynamic
    [] e.op = "expansion" -> e.n = e.x /\ e.m = e.u
    [] e.op = "kpf" -> ~e.null /\ Size(e)
    [] e.op \in {"project", "conejac", "conehess"} -> e.a = e.b
    [] e.op \in {"scalar-out", "scalar-jac"} -> e.k = 1
    [] e.op = "scalar-hess" -> e.k = 1 /\ NEq(e.v, 1)
    [] e.op = "alset" -> ~e.null
    [] e.op = "aleval" -> e.has
    (* pools *)
    [] e.op = "launch" -> ~s.running
    [] e.op = "move" -> ~s.running
    [] e.op = "stop" -> TRUE
(* calls whose rejection the documentation leaves open *)
Open(e) == e.op \in {"al-pen", "al-scale"} /\ e.k = -1 /\ NumFun(P(s.cur)) = 0

(* ------------------------------ effects of accepted calls ------------------------------ *)
Over(f, k, ids) == [x \in DOMAIN f |-> IF In(x, k, k + Len(ids) - 1) THEN ids[x - k + 1] ELSE f[x]]
Post(e) ==
  CASE e.op = "cost" -> [s EXCEPT !.cost[e.k] = e.id]
    [] e.op = "dyn" -> [s EXCEPT !.dyn[e.k] = e.id]
    [] e.op = "con" -> [s EXCEPT !.ncon[e.k] = @ + e.len]
    [] e.op = "costs" -> [s EXCEPT !.cost = Over(@, e.k, e.ids)]
    [] e.op = "dyns" -> [s EXCEPT !.dyn = Over(@, e.k, e.ids)]
    [] e.op \in {"ilqr-from", "al-from"} -> [s EXCEPT !.N = P(e.p).N, !.cur = e.p, !.have = P(e.p).N + 1]
    [] e.op \in {"ilqr-init", "al-init"} -> [s EXCEPT !.cur = e.p, !.have = s.N + 1]
    [] e.op = "ilqr-copy" -> [s EXCEPT !.cur = e.p, !.have = @ + IF e.b > e.a THEN e.b - e.a ELSE 0]
    [] e.op \in {"ilqr-traj", "al-traj"} -> [s EXCEPT !.traj = e.N]
    [] e.op = "ilqr-tasks" -> [s EXCEPT !.inds = e.inds]
    [] e.op = "addentry" ->
         LET at == IF e.col >= 0 THEN e.col ELSE Len(s.cols) + e.col + 1
         IN [s EXCEPT !.cols = Insert(@, at, e.title), !.lo = (e.title :> "-inf") @@ @, !.hi = (e.title :> "inf") @@ @]
    [] e.op = "lower" -> [s EXCEPT !.lo[e.title] = e.v]
    [] e.op = "upper" -> [s EXCEPT !.hi[e.title] = e.v]
    [] e.op = "launch" -> [s EXCEPT !.running = TRUE, !.n = e.n]
    [] e.op = "stop" -> [s EXCEPT !.running = FALSE, !.n = 0]
    [] OTHER -> s
(* what an accepted call returns *)
Result(e) ==
  CASE e.op = "ncon" -> e.v = s.ncon[e.k]
    [] e.op = "getcost" -> e.v = s.cost[e.k]
    [] e.op = "getdyn" -> e.v = s.dyn[e.k]
    [] e.op = "ilqr-kpf" -> e.v = P(s.cur).n
    [] e.op = "ilqr-tasks" -> e.tasks = Len(e.inds) - 1
    [] e.op = "al-ncon" -> e.v = NCon(P(s.cur), e.k)
    [] e.op = "al-total" -> e.v = NConAll(P(s.cur))
    [] e.op = "alcost" -> e.v = NCon(P(e.p), e.k)
    [] e.op = "traj" -> e.v = e.u
    [] OTHER -> TRUE

(* ------------------------------ penalties before and after a setter ------------------------------ *)
RECURSIVE Offset(_, _)
Offset(p, k) == IF k = 0 THEN 0 ELSE Offset(p, k - 1) + p.eq[k] + p.in[k]
Slot(p, e) == Offset(p, e.k) + (IF e.eq THEN 0 ELSE p.eq[e.k + 1]) + e.i + 1   \* which constraint function the setter means
Pens(e, c) ==
  LET off == IF c.op = "al-scale" THEN 0 ELSE 1
      hit(j) == (j + off) % 2 = 0 /\ c.out = "ok" /\ (c.k = -1 \/ (j + 1) \div 2 = Slot(P(s.cur), c))
  IN Len(e.after) = Len(e.before) /\ \A j \in 1..Len(e.after) : NEq(e.after[j], IF hit(j) THEN c.v ELSE e.before[j])

Step(e) ==
  CASE e.e = "problem" -> [s |-> NewProblem(e.N), t |-> {}]
    [] e.e = "ilqr" -> [s |-> NewSolver(e), t |-> {}]
    [] e.e = "al" -> [s |-> NewSolver([N |-> e.N, n |-> 2, m |-> 1]), t |-> {}]
    [] e.e = "prob" -> [s |-> [s EXCEPT !.probs = Append(@, e)], t |-> {}]
    [] e.e = "logger" -> [s |-> [f |-> "logger", cols |-> <<>>, lo |-> <<>>, hi |-> <<>>], t |-> {}]
    [] e.e = "sized" -> [s |-> [f |-> "sized"], t |-> {}]
    [] e.e = "pool" -> [s |-> [f |-> "pool", running |-> FALSE, n |-> 0], t |-> {}]
    [] e.e = "call" ->
         IF Open(e) THEN [s |-> s, t |-> {}]
         ELSE IF Pre(e) THEN [s |-> IF e.out = "ok" THEN Post(e) ELSE s,
                              t |-> IF e.out # "ok" THEN {"C22:valid-" \o e.op \o "-refused"} ELSE T(Result(e), "C22:" \o e.op \o "-result")]
         ELSE [s |-> s, t |-> T(e.out = "abort" /\ e.msg, "C22:invalid-" \o e.op \o (IF e.out = "ok" THEN "-accepted" ELSE "-undiagnosed"))]
    [] e.e = "problem-state" ->
         [s |-> s, t |-> T(e.done /\ e.cost = [j \in 1..s.N + 1 |-> s.cost[j - 1]] /\ e.dyn = [j \in 1..s.N + 1 |-> IF j = s.N + 1 THEN 0 ELSE s.dyn[j - 1]]
                           /\ e.ncon = [j \in 1..s.N + 1 |-> s.ncon[j - 1]], "C22:problem-state")]
    [] e.e = "unchanged" -> [s |-> s, t |-> T(e.same, "C22:changed-by-rejected-call")]
    [] e.e = "ilqr-assignment" -> [s |-> s, t |-> T(e.inds = s.inds, "C22:assignment")]
    [] e.e = "al-now" -> [s |-> s, t |-> {}]
    [] e.e = "al-pens" -> [s |-> s, t |-> T(Pens(e, Ev[CHOOSE j \in 1..i - 1 : Ev[j].e = "call" /\ \A l \in j + 1..i - 1 : Ev[l].e # "call"]), "C22:penalties")]
    [] e.e = "logger-state" -> [s |-> s, t |-> T(e.done /\ e.n = Len(s.cols) /\ e.titles = s.cols, "C22:columns")]
    [] e.e = "pool-state" -> [s |-> s, t |-> T(e.running = s.running /\ e.n = s.n, "C22:pool-state")]
    [] e.e = "crash" -> [s |-> s, t |-> {"C22:" \o e.how}]

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(Ev[i]) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
