-------------------------------- MODULE Stats --------------------------------
(* The statistics object (C13): named series that always have the same length, carried forward row by row.            *)
EXTENDS Num, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
T(ok, tag) == IF ok THEN {} ELSE {tag}
Names == {"cost", "alpha", "z", "grad", "dJ", "reg", "viol", "pen"}
Empty == [n \in Names |-> <<>>]
S0 == [f |-> Empty, inner |-> 0, outer |-> 0, total |-> 0, ic |-> 0, verb |-> 0, opt |-> 0, loose |-> FALSE]
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = S0

Rows(f) == Len(f["cost"])
NewRow(f) == [n \in Names |-> Append(f[n], IF f[n] = <<>> THEN 0 ELSE f[n][Len(f[n])])]
Set(f, n, v) == LET g == IF Rows(f) = 0 THEN NewRow(f) ELSE f IN [g EXCEPT ![n] = [@ EXCEPT ![Len(@)] = v]]
SeqEq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j] \/ NEq(a[j], b[j])
Same(f, g) == \A n \in Names : SeqEq(f[n], g[n])

State(e) ==
  \* a name without a series may still register the first row
  LET f == IF s.loose /\ Rows(s.f) = 0 /\ Len(e.series["cost"]) = 1 THEN NewRow(s.f) ELSE s.f
  IN [s |-> [s EXCEPT !.f = f, !.loose = FALSE],
      t |-> T(\A n \in Names : Len(e.series[n]) = Len(e.series["cost"]), "C13:equal-lengths")
            \cup T(\A n \in Names : Len(e.series[n]) = Len(f[n]), "C13:rows")
            \cup T(Same(f, e.series), "C13:values")
            \cup T(e.inner = s.inner /\ e.outer = s.outer /\ e.total = s.total /\ NEq(e.initial_cost, s.ic), "C13:counters")
            \cup T(e.verb = s.verb, "C13:verbosity")]
Step(e) ==
  CASE e.e = "new" -> [s |-> S0, t |-> {}]
    [] e.e = "log" -> [s |-> [s EXCEPT !.f = Set(@, e.title, e.v)], t |-> {}]
    [] e.e = "other" -> [s |-> [s EXCEPT !.loose = TRUE], t |-> {}]
    [] e.e = "row" -> [s |-> [s EXCEPT !.f = NewRow(@)], t |-> {}]
    [] e.e = "reset" -> [s |-> [S0 EXCEPT !.verb = s.opt, !.opt = s.opt], t |-> {}]
    [] e.e = "verb" -> [s |-> [s EXCEPT !.verb = e.v], t |-> {}]
    [] e.e = "optverb" -> [s |-> [s EXCEPT !.opt = e.v], t |-> {}]
    [] e.e = "counters" -> [s |-> [s EXCEPT !.inner = e.inner, !.outer = e.outer, !.total = e.total, !.ic = e.initial_cost], t |-> {}]
    [] e.e = "none" -> [s |-> s, t |-> {}]
    [] e.e = "state" -> State(e)
    [] e.e = "crash" -> [s |-> s, t |-> {"C13:" \o e.how}]

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(Ev[i]) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
