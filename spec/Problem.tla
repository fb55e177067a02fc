-------------------------------- MODULE Problem --------------------------------
(* Problem objects (C15): what each holds, under every history of setting, copying, moving and destroying, and what    *)
(* the solvers built from them hold.  Initial states live in cells because several objects may share one; a copy has    *)
(* its own cell, a moved-to object takes over the cell, and assignment writes the value into the target's own cell.     *)
EXTENDS Num, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
T(ok, tag) == IF ok THEN {} ELSE {tag}
Slots == 0..3

(* s.cells: initial states; s.p[slot]: <<>> or the problem *)
S0 == [cells |-> <<>>, p |-> [q \in Slots |-> <<>>]]
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = S0

NewProblem(N, c) == [N |-> N, cell |-> c, cost |-> [k \in 0..N |-> 0], dyn |-> [k \in 0..N |-> 0], dim |-> [k \in 0..N |-> <<>>],
                     eq |-> [k \in 0..N |-> <<>>], in |-> [k \in 0..N |-> <<>>]]
Fresh(v) == Append(s.cells, v)
Put(q, P) == [s EXCEPT !.p[q] = P]

(* ------------------------------ what the queries must say ------------------------------ *)
X0(P) == s.cells[P.cell]
Good(P, k) == /\ P.cost[k] # 0
              /\ k < P.N => P.dyn[k] # 0
              /\ k = 0 => Len(X0(P)) > 0 /\ (P.dyn[0] # 0 => P.dim[0][1] = Len(X0(P)))
Defined(P) == \A k \in 0..P.N : Good(P, k)
AsSeq(f, N) == [j \in 1..N + 1 |-> f[j - 1]]
Ids(f, N) == [j \in 1..N + 1 |-> [c \in 1..Len(f[j - 1]) |-> f[j - 1][c].id]]
RECURSIVE SumLen(_)
SumLen(q) == IF q = <<>> THEN 0 ELSE Len(Head(q).v) + SumLen(Tail(q))
NCon(P, k) == SumLen(P.eq[k]) + SumLen(P.in[k])
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
NCons(P) == [j \in 1..P.N + 1 |-> NCon(P, j - 1)]
State(P, e) ==
  T(e.N = P.N, "C15:segments")
  \cup T(VEq(e.x0, X0(P)), "C15:initial-state")
  \cup T(e.cost = AsSeq(P.cost, P.N), "C15:cost-at-knot-point")
  \cup T(e.dyn = AsSeq(P.dyn, P.N), "C15:dynamics-at-step")
  \cup T(e.term = P.dim[P.N] \/ P.N = 0, "C15:terminal-dimensions")
  \cup T(e.eq = Ids(P.eq, P.N) /\ e.in = Ids(P.in, P.N), "C15:constraints-at-knot-point")
  \cup T(e.ncon = NCons(P) /\ e.total = Sum(NCons(P)), "C12:constraint-count")
  \cup T(e.def = Defined(P) /\ e.defv = Defined(P), "C15:fully-defined")
  \cup T(e.pass = [j \in 1..P.N + 1 |-> Good(P, j - 1)] /\ e.silent, "C15:definition-report")

(* ------------------------------ what the solvers must hold ------------------------------ *)
Viol(c, eq) == [j \in 1..Len(c.v) |-> IF eq THEN NAbs(c.v[j]) ELSE NMax(c.v[j], 0)]
Info(P, k) == [c \in 1..Len(P.eq[k]) |-> [label |-> P.eq[k][c].label, k |-> k, v |-> P.eq[k][c].v, eq |-> TRUE]]
              \o [c \in 1..Len(P.in[k]) |-> [label |-> P.in[k][c].label, k |-> k, v |-> P.in[k][c].v, eq |-> FALSE]]
RECURSIVE Infos(_, _)
Infos(P, k) == IF k > P.N THEN <<>> ELSE Info(P, k) \o Infos(P, k + 1)
RECURSIVE MaxOver(_)
MaxOver(q) == IF q = <<>> THEN 0 ELSE NMax(VMaxAbs(Viol(Head(q), Head(q).eq)), MaxOver(Tail(q)))
(* the list is ordered by knot point; within one the order is free *)
SameInfo(got, want) ==
  /\ Len(got) = Len(want)
  /\ \A j \in 1..Len(got) : got[j].k = want[j].k
  /\ \A j \in 1..Len(want) : Cardinality({l \in 1..Len(got) : got[l].label = want[j].label /\ got[l].k = want[j].k}) = 1
Signed(c, eq) == [j \in 1..Len(c.v) |-> IF eq THEN c.v[j] ELSE NMax(c.v[j], 0)]
Typed(got, want) ==
  \A j \in 1..Len(want) : \A l \in 1..Len(got) : got[l].label = want[j].label =>
      VClose(got[l].v, Signed(want[j], want[j].eq))
AL(P, e) ==
  LET want == Infos(P, 0)
  IN T(e.ncon = NCons(P) /\ e.total = Sum(NCons(P)), "C15:constraints-transferred")
     \cup T(SameInfo(e.info, want), "C15:constraints-transferred")
     \cup T(Typed(e.info, want), "C15:constraint-type")
     \cup T(NClose(e.max, MaxOver(want), "1e-9", "1e-9"), "C12:max-violation")

(* printed constraint information is the list itself, to the requested number of digits *)
Pow10(n) == CASE n = 1 -> "1/1" [] n = 2 -> "1/10" [] n = 3 -> "1/100" [] n = 4 -> "1/1000" [] n = 5 -> "1/10000" [] n = 6 -> "1/100000" [] n = 7 -> "1/1000000" [] n = 8 -> "1/10000000"
Printed(l, c, prec) == l.label = c.label /\ l.k = c.k /\ Len(l.v) = Len(c.v) /\ \A j \in 1..Len(c.v) : NClose(l.v[j], c.v[j], NMul("51/100", Pow10(prec)), "1e-300")
Print1(e) ==
  T(Len(e.lines) = Len(e.info) + 1 /\ e.lines[1].n = Len(e.info), "C12:printed-count")
  \cup T(\A j \in 1..Len(e.info) : j + 1 > Len(e.lines) \/ Printed(e.lines[j + 1], e.info[j], e.prec), "C12:printed-info")
  \cup T(e.sorted => \A j \in 1..Len(e.info) - 1 : NGe(VMaxAbs(e.info[j].v), VMaxAbs(e.info[j + 1].v)), "C12:sorted-info")
  \cup T(e.one = <<>> \/ (Len(e.one) = 3 /\ \E j \in 1..Len(e.info) : Printed(e.one[2], e.info[j], e.prec) /\ Printed(e.one[3], e.info[j], 4)), "C12:printed-info")

Step(e) ==
  CASE e.e = "new" -> [s |-> IF e.share >= 0 THEN Put(e.p, NewProblem(e.N, s.p[e.share].cell))
                             ELSE [cells |-> Fresh(e.v), p |-> [s.p EXCEPT ![e.p] = NewProblem(e.N, Len(s.cells) + 1)]], t |-> {}]
    [] e.e = "drop" -> [s |-> Put(e.p, <<>>), t |-> {}]
    [] e.e = "cost" -> [s |-> Put(e.p, [s.p[e.p] EXCEPT !.cost = [k \in DOMAIN @ |-> IF k \in e.k..e.k + Len(e.ids) - 1 THEN e.ids[k - e.k + 1] ELSE @[k]]]), t |-> {}]
    [] e.e = "dyn" ->
         LET P == s.p[e.p]
             In(k) == k \in e.k..e.k + Len(e.ids) - 1
             last == In(P.N - 1)
         IN [s |-> Put(e.p, [P EXCEPT
                     !.dyn = [k \in DOMAIN @ |-> IF In(k) THEN e.ids[k - e.k + 1] ELSE IF k = P.N /\ last THEN -1 ELSE @[k]],
                     !.dim = [k \in DOMAIN @ |-> IF In(k) THEN e.dims[k - e.k + 1] ELSE IF k = P.N /\ last THEN e.dims[P.N - e.k] ELSE @[k]]]), t |-> {}]
    [] e.e = "con" ->
         LET c == [id |-> e.id, label |-> "con" \o ToString(e.id), v |-> e.v]
         IN [s |-> Put(e.p, IF e.eq THEN [s.p[e.p] EXCEPT !.eq[e.k] = Append(@, c)] ELSE [s.p[e.p] EXCEPT !.in[e.k] = Append(@, c)]), t |-> {}]
    [] e.e = "x0" -> [s |-> [s EXCEPT !.cells[s.p[e.p].cell] = e.v], t |-> {}]
    [] e.e = "copyctor" -> [s |-> [cells |-> Fresh(X0(s.p[e.from])), p |-> [s.p EXCEPT ![e.p] = [s.p[e.from] EXCEPT !.cell = Len(s.cells) + 1]]], t |-> {}]
    [] e.e = "movector" -> [s |-> [s EXCEPT !.p[e.p] = s.p[e.from], !.p[e.from] = <<>>], t |-> {}]
    [] e.e \in {"copyassign", "moveassign"} ->
         LET F == s.p[e.from]
             mine == s.p[e.p] # <<>>     \* a moved-from object has a cell nobody else sees
             cs == IF mine THEN [s.cells EXCEPT ![s.p[e.p].cell] = X0(F)] ELSE Fresh(X0(F))
             c == IF mine THEN s.p[e.p].cell ELSE Len(s.cells) + 1
         IN [s |-> [cells |-> cs, p |-> [s.p EXCEPT ![e.p] = [F EXCEPT !.cell = c], ![e.from] = IF e.e = "moveassign" THEN <<>> ELSE @]], t |-> {}]
    [] e.e = "state" -> [s |-> s, t |-> State(s.p[e.p], e)]
    [] e.e = "solver" -> LET P == s.p[e.p] IN
         [s |-> s, t |-> T(e.N = P.N, "C15:segments") \cup T(e.cost = AsSeq(P.cost, P.N), "C15:costs-transferred") \cup T(e.dyn = AsSeq(P.dyn, P.N), "C15:dynamics-transferred")]
    [] e.e = "al" -> [s |-> s, t |-> AL(s.p[e.p], e)]
    [] e.e = "print" -> [s |-> s, t |-> Print1(e)]
    [] e.e = "follow" -> LET x == X0(s.p[e.p]) IN
         [s |-> s, t |-> T(VEq(e.ilqr, x) /\ VEq(e.ilqr2, x) /\ VEq(e.al, x), "C15:follows-initial-state")]
    [] e.e = "crash" -> [s |-> s, t |-> {"C15:" \o e.how}]

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(Ev[i]) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
