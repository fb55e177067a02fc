-------------------------------- MODULE Timer --------------------------------
(* The profiler (C19): scopes, their totals per call path, the summary and where it goes.  A path is a sequence of     *)
(* names.  Output is checked per sink: 0,1 streams of the user, 2,3 files by name, 4 standard output.                   *)
EXTENDS Num, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
T(ok, tag) == IF ok THEN {} ELSE {tag}
Sinks == 0..4
Front(q) == SubSeq(q, 1, Len(q) - 1)
Last(q) == q[Len(q)]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* handle: the user still holds the timer; it lives as long as that or an active scope does *)
S0 == [handle |-> FALSE, active |-> FALSE, stack |-> <<>>, tot |-> <<>>, now |-> 0, printed |-> FALSE, out |-> 4, sinks |-> [q \in Sinks |-> <<>>]]
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = S0

(* ------------------------------ the summary of totals tot ------------------------------ *)
Anc(p, tot) ==    \* the closest listed scope around p
  LET RECURSIVE F(_) F(q) == IF q = <<>> \/ q \in DOMAIN tot THEN q ELSE F(Front(q)) IN F(Front(p))
RECURSIVE SumLen(_)
SumLen(p) == IF p = <<>> THEN 0 ELSE Len(Head(p)) + SumLen(Tail(p))
RECURSIVE SumOver(_, _)
SumOver(S, tot) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN NAdd(tot[p], SumOver(S \ {p}, tot))
Whole(tot) == SumOver({p \in DOMAIN tot : Anc(p, tot) = <<>>}, tot)
(* the printed percentage is the ratio, up to rounding to an integer; ratios too large for an int are not judged *)
Pct(shown, part, whole) ==
  NEq(whole, 0) \/ NGe(NMul(100, part), NMul("2147483647", whole)) \/ NLt(NAbs(NSub(NMul(100, part), NMul(shown, whole))), whole)
RowOf(r, p, tot, whole) ==
  /\ r.name = Last(p) /\ r.indent = SumLen(Front(p))
  /\ NEq(r.us, tot[p])
  /\ Pct(r.pt, tot[p], whole)
  /\ LET a == Anc(p, tot) IN Pct(r.pp, tot[p], IF a = <<>> THEN whole ELSE tot[a])
RECURSIVE Lists(_, _, _, _, _, _)
Lists(rows, j, cur, left, tot, whole) ==    \* every path once, below the scope it belongs to
  IF j > Len(rows) THEN left = {}
  ELSE \E p \in left : /\ RowOf(rows[j], p, tot, whole)
                       /\ IsPrefix(Anc(p, tot), cur)
                       /\ Lists(rows, j + 1, p, left \ {p}, tot, whole)
SummaryIs(rows, tot) == Len(rows) = Cardinality(DOMAIN tot) /\ Lists(rows, 1, <<>>, DOMAIN tot, tot, Whole(tot))

ItemIs(got, want) ==
  IF want.t = "user" THEN got.t = "user" /\ got.n = want.n
  ELSE got.t = "sum" /\ SummaryIs(got.rows, want.tot)
SinkTags(got, want) ==
  IF Len(got) # Len(want) \/ \E j \in 1..Len(got) : got[j].t # want[j].t THEN {"C19:output"}
  ELSE UNION {T(ItemIs(got[j], want[j]), "C19:summary") : j \in 1..Len(got)}

(* ------------------------------ profiles of solves: any totals, but consistent ------------------------------ *)
RECURSIVE PathsOf(_, _, _, _)
PathsOf(rows, j, cur, acc) ==     \* rebuilds the paths from the indentation; <<>> marks a row without a parent
  IF j > Len(rows) THEN acc
  ELSE LET ks == {k \in 0..Len(cur) : SumLen(SubSeq(cur, 1, k)) = rows[j].indent}
           p == IF ks = {} THEN <<>> ELSE Append(SubSeq(cur, 1, CHOOSE k \in ks : TRUE), rows[j].name)
       IN PathsOf(rows, j + 1, p, Append(acc, p))
Consistent(rows) ==
  LET ps == PathsOf(rows, 1, <<>>, <<>>)
      D == {ps[j] : j \in 1..Len(ps)}
      tot == [p \in D |-> rows[CHOOSE j \in 1..Len(ps) : ps[j] = p].us]
      kids(p) == {q \in D : Len(q) = Len(p) + 1 /\ IsPrefix(p, q)}
  IN /\ <<>> \notin D /\ Cardinality(D) = Len(rows)
     /\ \A p \in D : NLe(SumOver(kids(p), tot), tot[p]) /\ (Len(p) = 1 \/ Front(p) \in D)
     /\ SummaryIs(rows, tot)
Root(al) == IF al THEN {"al"} ELSE {"ilqr"}
ProfileTags(e) ==
  LET f == IF e.file THEN e.f ELSE e.o
      other == IF e.file THEN e.o ELSE e.f
  IN T(other = <<>>, "C19:output")
     \cup IF ~e.on THEN T(\A j \in 1..Len(f) : f[j].t # "bad", "C19:solve")
          ELSE T(Len(f) = 1 /\ f[1].t = "sum" /\ Consistent(f[1].rows) /\ Len(f[1].rows) > 3
                 /\ \E j \in 1..Len(f[1].rows) : f[1].rows[j].indent = 0 /\ f[1].rows[j].name \in Root(e.al), "C19:solve")

(* ------------------------------ histories ------------------------------ *)
NamesOn(stk) == LET On(x) == x.on IN [j \in 1..Len(SelectSeq(stk, On)) |-> SelectSeq(stk, On)[j].name]
Printed(st, tot) == [st EXCEPT !.printed = TRUE, !.sinks[st.out] = Append(@, [t |-> "sum", tot |-> tot])]
(* the timer goes away with the last reference and then prints what has never been printed *)
Held(st) == st.handle \/ \E j \in 1..Len(st.stack) : st.stack[j].on
Release(st) == IF ~Held(st) /\ st.active /\ ~st.printed THEN Printed(st, st.tot) ELSE st
Plus(tot, p, d) == IF p \in DOMAIN tot THEN [tot EXCEPT ![p] = NAdd(@, d)] ELSE (p :> d) @@ tot
Table(m) == LET ps == {m[j].p : j \in 1..Len(m)} IN [p \in ps |-> (CHOOSE x \in {m[j] : j \in 1..Len(m)} : x.p = p).us]
Empty == [p \in {} |-> 0]

Step(e) ==
  CASE e.e = "timer" -> [s |-> [S0 EXCEPT !.handle = TRUE, !.tot = Empty], t |-> {}]
    [] e.e = "adv" -> [s |-> [s EXCEPT !.now = NAdd(@, e.us)], t |-> {}]
    [] e.e = "on" -> [s |-> [s EXCEPT !.active = TRUE], t |-> {}]
    [] e.e = "off" -> [s |-> [s EXCEPT !.active = FALSE], t |-> {}]
    [] e.e = "active" -> [s |-> s, t |-> T(e.v = s.active, "C19:active")]
    [] e.e = "start" -> [s |-> [s EXCEPT !.stack = Append(@, [name |-> e.name, at |-> s.now, on |-> s.active])], t |-> {}]
    [] e.e = "stop" ->
         LET top == Last(s.stack)
             popped == [s EXCEPT !.stack = Front(@)]
         IN [s |-> IF top.on THEN Release([popped EXCEPT !.tot = Plus(@, NamesOn(s.stack), NSub(s.now, top.at))]) ELSE popped, t |-> {}]
    [] e.e = "summary" -> [s |-> Printed(s, s.tot), t |-> {}]
    [] e.e = "table" -> [s |-> Printed(s, Table(e.m)), t |-> {}]
    [] e.e = "out" -> [s |-> [s EXCEPT !.out = e.to, !.sinks[e.to] = IF e.to \in {2, 3} THEN <<>> ELSE @], t |-> {}]
    [] e.e = "badfile" -> [s |-> s, t |-> {}]
    [] e.e = "thrown" -> [s |-> s, t |-> T(e.v, "C19:bad-file")]
    [] e.e = "user" -> [s |-> [s EXCEPT !.sinks[e.to] = Append(@, [t |-> "user", n |-> e.n])], t |-> {}]
    [] e.e = "drop" -> [s |-> Release([s EXCEPT !.handle = FALSE]), t |-> {}]
    [] e.e = "end" -> [s |-> s, t |-> UNION {SinkTags(e.sinks[q + 1], s.sinks[q]) : q \in Sinks} \cup T(e.closed, "C19:user-stream") \cup T(e.fds = 0, "C19:leak")]
    [] e.e = "profile" -> [s |-> s, t |-> ProfileTags(e)]
    [] e.e = "crash" -> [s |-> s, t |-> {"C19:" \o e.how}]

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(Ev[i]) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
