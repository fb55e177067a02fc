------------------------------ MODULE QueueAbs ------------------------------
(* The abstract queue: a sequence.  An operation under way is a record [op, v, lin, ...]; it takes effect atomically *)
(* (lin) at some moment between its call and its return.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NONE == [op |-> "none", v |-> 0, lin |-> FALSE, ok |-> 0, out |-> 0]
NP(pend, op, lin) == Cardinality({u \in DOMAIN pend : pend[u].op = op /\ pend[u].lin = lin})
(* counting is not atomic: elements of pushes under way may be counted or not, those of pops and clears under way too *)
SizeOk(q, pend, n) ==
  LET lo == Len(q) - NP(pend, "push", TRUE) - NP(pend, "pop", FALSE)
      hi == Len(q) + NP(pend, "push", FALSE) + NP(pend, "pop", TRUE)
  IN /\ n >= (IF NP(pend, "clear", FALSE) > 0 \/ lo < 0 THEN 0 ELSE lo)
     /\ n <= (IF NP(pend, "clear", TRUE) > 0 THEN 1000 ELSE hi)
(* what the operation p may answer, and leave behind, when it takes effect on the queue q; seen: the size it answered *)
Effect(q, pend, p, seen) ==
  CASE p.op = "push"  -> {[q |-> Append(q, p.v), ok |-> 1, v |-> p.v]}
    [] p.op = "pop"   -> IF q = <<>> THEN {[q |-> q, ok |-> 0, v |-> -7]} ELSE {[q |-> Tail(q), ok |-> 1, v |-> Head(q)]}
    [] p.op = "clear" -> {[q |-> <<>>, ok |-> 1, v |-> 0]}
    [] p.op = "empty" -> {[q |-> q, ok |-> IF q = <<>> THEN 1 ELSE 0, v |-> 0]}
    [] p.op = "size"  -> IF SizeOk(q, pend, seen) THEN {[q |-> q, ok |-> 1, v |-> seen]} ELSE {}
=============================================================================
