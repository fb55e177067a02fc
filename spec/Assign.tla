-------------------------------- MODULE Assign --------------------------------
(* Work assignment and parallel expansion: the default assignment is a partition of the knot points, a custom one is  *)
(* accepted exactly when it is one, stays until changed and is what the next expansion uses, every knot point is      *)
(* expanded exactly once, and the results are those of one thread.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
N == Traces[tr].N
T(ok, tag) == IF ok THEN {} ELSE {tag}

Partition(v) == /\ Len(v) >= 2 /\ v[1] = 0 /\ v[Len(v)] = N + 1
                /\ \A j \in 1..Len(v) - 1 : v[j] < v[j + 1]
S0 == [nt |-> 1, tpt |-> 1, custom |-> <<>>, now |-> <<>>, threads |-> 0, trying |-> FALSE, ok |-> FALSE]
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = S0

Of(calls, t) == SelectSeq(calls, LAMBDA c : c.t = t)
(* the calls of one thread are whole blocks of the assignment, each in order *)
RECURSIVE Blocks(_, _, _)
Blocks(ks, v, at) ==    \* at: next expected knot point in the current block, -1 at a block boundary
  IF ks = <<>> THEN at = -1
  ELSE LET k == Head(ks)
           ends == {v[j] : j \in 2..Len(v)}
       IN IF at = -1 /\ (k \notin {v[j] : j \in 1..Len(v) - 1}) THEN FALSE
          ELSE IF at # -1 /\ k # at THEN FALSE
          ELSE Blocks(Tail(ks), v, IF k + 1 \in ends THEN -1 ELSE k + 1)

Expanded(calls) ==
  LET g == SelectSeq(calls, LAMBDA c : c.c = "grad")
      h == SelectSeq(calls, LAMBDA c : c.c = "hess")
      j == SelectSeq(calls, LAMBDA c : c.c = "jac")
      Once(q, K) == Len(q) = Cardinality(K) /\ {q[x].k : x \in 1..Len(q)} = K
      ths == {g[x].t : x \in 1..Len(g)}
      \* the copies of a discretized model do not know their knot points: they are counted (four stages each)
      JacOnce == IF \E x \in 1..Len(j) : j[x].k = -1 THEN Len(j) = 4 * N /\ \A x \in 1..Len(j) : j[x].k = -1 ELSE Once(j, 0..N - 1)
  IN T(Once(g, 0..N) /\ Once(h, 0..N) /\ JacOnce, "C03:once")
     \cup T(Cardinality(ths) <= IF s.threads > 1 THEN s.threads ELSE 1, "C03:threads")
     \cup IF s.threads > 1 /\ s.now # <<>>
            THEN T(\A t \in ths : Blocks([x \in 1..Len(Of(g, t)) |-> Of(g, t)[x].k], s.now, -1), "C03:blocks") ELSE {}

(* the default assignment follows the options: one task per thread and tasks per thread, at most one per segment *)
Tasks == LET q == s.nt * s.tpt  l == IF q < N THEN q ELSE N IN IF l < 1 THEN 1 ELSE l
Step(e) ==
  CASE e.e = "new" -> [s |-> S0, t |-> {}]
    [] e.e = "opts" -> [s |-> [s EXCEPT !.nt = e.nt, !.tpt = e.tpt], t |-> {}]
    [] e.e = "try" -> [s |-> [s EXCEPT !.trying = TRUE, !.ok = Partition(e.inds)], t |-> {}]
    [] e.e = "custom" -> [s |-> [s EXCEPT !.custom = e.inds, !.now = e.inds, !.trying = FALSE], t |-> T(~s.trying \/ s.ok, "C03:invalid-accepted")]
    [] e.e = "assignment" -> [s |-> s,
          t |-> T(Partition(e.inds), "C03:partition") \cup T(s.custom = <<>> \/ e.inds = s.custom, "C03:custom-kept")
                 \cup T(s.custom # <<>> \/ s.nt < 1 \/ s.tpt < 1 \/ Len(e.inds) - 1 = Tasks, "C03:default-follows")]
    \* with custom work the blocks are known; the default ones are whatever was reported at setup
    [] e.e = "setup" -> [s |-> [s EXCEPT !.threads = e.nt, !.now = IF s.custom # <<>> THEN s.custom ELSE Ev[i + 1].inds],
                         t |-> T(e.nt = (IF s.nt > 1 THEN s.nt ELSE e.nt) /\ (s.nt > 1 \/ e.nt <= 1), "C03:threads")]
    [] e.e = "begin" -> [s |-> s, t |-> {}]
    [] e.e = "expanded" -> [s |-> s, t |-> Expanded(e.calls)]
    [] e.e = "barrier" -> [s |-> s, t |-> T(e.failed = 0, "C03:assignment-used")]
    [] e.e = "compare" -> [s |-> s, t |-> T(e.a = e.b, "C03:serial-result")]
    [] e.e = "solve" -> [s |-> s, t |-> {}]
    \* the solve set everything up again
    [] e.e = "solved" -> [s |-> [s EXCEPT !.threads = IF s.nt > 1 THEN s.nt ELSE 0, !.now = s.custom], t |-> {}]
    [] e.e = "crash" -> [s |-> s, t |-> T(s.trying /\ ~s.ok /\ e.how = "abort", IF s.trying /\ s.ok THEN "C03:valid-rejected" ELSE "C03:crash")]

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(Ev[i]) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ IF Traces[tr].bad = "" THEN TRUE ELSE PrintT(<<"REJECT", "C03:" \o Traces[tr].bad, Traces[tr].id, Len(Ev)>>)
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
