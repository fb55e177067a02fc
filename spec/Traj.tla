-------------------------------- MODULE Traj --------------------------------
(* Trajectories and knot points as containers (C17).  A trajectory is a sequence of knot points [x, u, t, h].          *)
EXTENDS Num, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
T(ok, tag) == IF ok THEN {} ELSE {tag}
Slots == 0..2
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = [q \in Slots |-> <<>>]

KP(x, u, t, h) == [x |-> x, u |-> u, t |-> t, h |-> h]
KEq(a, b) == VEq(a.x, b.x) /\ VEq(a.u, b.u) /\ NEq(a.t, b.t) /\ NEq(a.h, b.h)
ZEq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : KEq(a[k], b[k])

Blank(N, n, m) == [k \in 1..N + 1 |-> KP(VZero(n), VZero(m), 0, 0)]
FromLists(X, U, t) == [k \in 1..Len(X) |->
  IF k <= Len(U) THEN KP(X[k], U[k], t[k], NSub(t[k + 1], t[k])) ELSE KP(X[k], VZero(Len(U[1])), t[k], 0)]
Uniform(z, h) == [k \in 1..Len(z) |-> [z[k] EXCEPT !.t = NMul(k - 1, h), !.h = IF k < Len(z) THEN h ELSE 0]]
Zeroed(z) == [k \in 1..Len(z) |-> [z[k] EXCEPT !.x = VZero(Len(@)), !.u = VZero(Len(@))]]
Consistent(z, eps) == \A k \in 1..Len(z) - 1 : NLe(NAbs(NSub(z[k].h, NSub(z[k + 1].t, z[k].t))), eps)

State(z, e) ==
  T(e.N + 1 = Len(z), "C17:segments")
  \cup T(ZEq(e.a, z), "C17:read-back")
  \cup T(ZEq(e.b, z), "C17:read-back-const")
  \cup T(ZEq(e.it, z), "C17:iteration")
  \cup T(Len(e.sc) = Len(z) /\ \A k \in 1..Len(z) : VEq(e.sc[k], z[k].x \o z[k].u), "C17:state-control")
  \cup T(\A k \in 1..Len(z) : LET d == <<Len(z[k].x), Len(z[k].u)>> IN SubSeq(e.dims, 4*k - 3, 4*k) = d \o d, "C17:dimensions")
  \cup T(e.term = [k \in 1..Len(z) |-> NEq(z[k].h, 0)], "C17:terminal")

Put(q, z) == [s EXCEPT ![q] = z]
Kp(q, k, f) == [s EXCEPT ![q][k + 1] = f]
Step(e) ==
  CASE e.e = "new" -> [s |-> Put(e.p, Blank(e.N, e.n, e.m)), t |-> {}]
    [] e.e = "lists" -> [s |-> Put(e.p, FromLists(e.X, e.U, e.t)), t |-> {}]
    [] e.e = "kps" -> [s |-> Put(e.p, e.z), t |-> {}]
    [] e.e = "x" -> [s |-> [s EXCEPT ![e.p][e.k + 1].x = e.v], t |-> {}]
    [] e.e = "u" -> [s |-> [s EXCEPT ![e.p][e.k + 1].u = e.v], t |-> {}]
    [] e.e = "xi" -> [s |-> [s EXCEPT ![e.p][e.k + 1].x[e.j + 1] = e.v], t |-> {}]
    [] e.e = "t" -> [s |-> [s EXCEPT ![e.p][e.k + 1].t = e.v], t |-> {}]
    [] e.e = "h" -> [s |-> [s EXCEPT ![e.p][e.k + 1].h = e.v], t |-> {}]
    [] e.e = "zero" -> [s |-> Put(e.p, Zeroed(s[e.p])), t |-> {}]
    [] e.e = "uniform" -> [s |-> Put(e.p, Uniform(s[e.p], e.h)), t |-> {}]
    [] e.e = "terminal" -> [s |-> [s EXCEPT ![e.p][e.k + 1].h = 0, ![e.p][e.k + 1].u = VZero(Len(@))], t |-> {}]
    [] e.e = "kcopy" -> [s |-> [s EXCEPT ![e.p][e.k + 1] = s[e.from][e.l + 1]], t |-> {}]
    [] e.e = "random" -> LET old == s[e.p][e.k + 1] IN
         [s |-> [s EXCEPT ![e.p][e.k + 1] = e.z],
          t |-> T(Len(e.z.x) = Len(old.x) /\ Len(e.z.u) = Len(old.u) /\ NLe(0, e.z.t) /\ NLe(e.z.t, 10) /\ NLe(0, e.z.h) /\ NLe(e.z.h, 1), "C17:random")]
    [] e.e = "conv" -> LET z == s[e.p][e.k + 1] IN
         [s |-> s, t |-> T(e.n = Len(z.x) /\ e.m = Len(z.u) /\ KEq(KP(e.x, e.u, e.t, e.h), z), "C17:conversion")]
    [] e.e = "copy" -> [s |-> [s EXCEPT ![e.p] = s[e.from]], t |-> {}]
    [] e.e = "move" -> [s |-> [s EXCEPT ![e.p] = s[e.from], ![e.from] = <<>>], t |-> {}]
    [] e.e = "check" -> [s |-> s, t |-> T(e.ok = Consistent(s[e.p], e.eps), "C17:time-consistency")]
    [] e.e = "state" -> [s |-> s, t |-> State(s[e.p], e)]
    [] e.e = "crash" -> [s |-> s, t |-> {"C17:" \o e.how}]

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(Ev[i]) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
