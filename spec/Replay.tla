------------------------------- MODULE Replay -------------------------------
(* Compares what the real solvers did with what the behaviour of Control.tla they replayed says.                     *)
EXTENDS Decide, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
T(ok, tag) == IF ok THEN {} ELSE {tag}
Near(a, b) == NClose(a, b, "1e-9", "1e-9")
Col(rows, f) == [j \in 1..Len(rows) |-> rows[j][f]]
NearV(a, b, rt, at) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : NClose(a[j], b[j], rt, at)

ResTags(w, r, al) ==
  LET h == r.h
      n == Len(w.rows)
      lens == Len(h.cost) = n /\ Len(h.alpha) = n /\ Len(h.z) = n /\ Len(h.grad) = n /\ Len(h.dJ) = n /\ Len(h.reg) = n /\ Len(h.viol) = n /\ Len(h.pen) = n
      who == IF al THEN "C04" ELSE "C05"
  IN T(r.ist = w.ist, "C05:replay-status") \cup T(r.st = w.st, who \o ":replay-status")
     \cup T(r.inner = w.inner /\ r.total = w.total, "C05:replay-count") \cup T(~al \/ r.outer = w.outer, "C04:replay-count")
     \cup T(Near(r.u, w.u) /\ NEq(r.x, w.x) /\ r.rest, "C07:replay-trajectory")
     \cup T(NClose(r.rho, w.rho, "1e-12", 0), "C09:replay-rho")
     \cup T(NClose(r.J0, w.J0, "1e-9", "1e-9"), "C13:replay-initial-cost")
     \cup T(lens, "C13:replay-rows")
     \cup (IF ~lens THEN {}
           ELSE T(NearV(h.reg, Col(w.rows, "reg"), "1e-12", 0), "C09:replay-reg") \cup T(NearV(h.reg, Col(w.rows, "reg"), "1e-12", 0), "C13:replay-reg")
                \cup T(NearV(h.cost, Col(w.rows, "cost"), "1e-9", "1e-9"), "C13:replay-cost") \cup T(NearV(h.alpha, Col(w.rows, "alpha"), "1e-12", 0), "C13:replay-alpha")
                \cup T(NearV(h.alpha, Col(w.rows, "alpha"), "1e-12", 0), "C07:replay-alpha")
                \cup T(NearV(h.z, Col(w.rows, "z"), "1e-3", "1e-3"), "C13:replay-ratio") \cup T(NearV(h.grad, Col(w.rows, "grad"), "1e-8", "1e-15"), "C13:replay-gradient")
                \cup T(NearV(h.grad, Col(w.rows, "grad"), "1e-8", "1e-15"), "C05:replay-gradient")
                \cup T(NearV(h.dJ, Col(w.rows, "dJ"), "1e-8", "1e-9"), "C13:replay-decrease") \cup T(NearV(h.viol, Col(w.rows, "viol"), "1e-12", 0), "C13:replay-violation")
                \cup T(NearV(h.pen, Col(w.rows, "pen"), "1e-12", 0), "C13:replay-penalty"))
     \cup T(~al \/ Near(r.lam, w.lam), "C10:replay-duals") \cup T(~al \/ NClose(r.pen, w.pen, "1e-12", 0), "C10:replay-penalty")

Run(e) ==
  LET want == Traces[tr].want
      all == IF Len(e.res) # Len(want) THEN {"C14:replay-results"}
             ELSE UNION {LET t == ResTags(want[j], e.res[j], Traces[tr].al)
                         IN IF e.v = "plain" THEN IF j = 1 THEN t ELSE IF t = {} THEN {} ELSE t \cup {"C14:replay-second"}
                            ELSE IF t = {} THEN {} ELSE IF e.v \in s THEN {}        \* the plain run went wrong already
                            ELSE {CASE e.v = "moved" -> "C14:replay-moved" [] e.v = "used" -> "C14:replay-used" [] OTHER -> "C03:replay-threads"}
                         : j \in 1..Len(want)}
  IN [s |-> IF e.v = "plain" /\ all # {} THEN {"moved", "used", "threads"} ELSE s, t |-> all]
Step(e) == IF e.e = "run" THEN Run(e)
           ELSE [s |-> s, t |-> {"C22:replay-crash", IF e.op = "plain" THEN IF Traces[tr].al THEN "C04:replay-crash" ELSE "C05:replay-crash" ELSE IF e.op = "threads" THEN "C03:replay-crash" ELSE "C14:replay-crash"}]

Init == tr \in 1..Len(Traces) /\ i = 0 /\ s = {}
Next ==
  /\ i < Len(Traces[tr].ev)
  /\ LET r == Step(Traces[tr].ev[i + 1])
     IN /\ \A t \in r.t : PrintT(<<"REJECT", t, Traces[tr].id, i + 1>>)
        /\ s' = r.s
        /\ (i + 1 = Len(Traces[tr].ev) => PrintT(<<"DONE", Traces[tr].id, i + 1>>))
  /\ i' = i + 1
  /\ tr' = tr
Spec == Init /\ [][Next]_vars
=============================================================================
