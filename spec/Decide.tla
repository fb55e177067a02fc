------------------------------- MODULE Decide -------------------------------
(* What the solvers decide, written once and used both by the trace specification (Solver.tla) and by the          *)
(* transition system that generates tests (Control.tla): when an iteration stops and with which status, and the   *)
(* rows of the statistics.                                                                                         *)
EXTENDS Riccati

SOLVED == 0   UNSOLVED == 1   STATELIMIT == 2   CONTROLLIMIT == 3   COSTINC == 4
MAXTOTAL == 5   MAXOUTER == 6   MAXINNER == 7   MAXPEN == 8   BPFAILED == 9

ZeroRow == [cost |-> 0, alpha |-> 0, z |-> 0, grad |-> 0, dJ |-> 0, reg |-> 0, viol |-> 0, pen |-> 0]
Rows0(rows) == IF rows = <<>> THEN <<ZeroRow>> ELSE rows     \* logging creates the first row
Last(rows) == rows[Len(rows)]
SetLast(rows, r) == [rows EXCEPT ![Len(rows)] = r]

(* ------------------------------------------------------------------ when to stop, and why *)
IlqrDone(o, st, dJ, grad, inner, total) ==
  IF NLt(dJ, o.costTol) /\ NLt(grad, o.gradTol) THEN SOLVED
  ELSE IF inner >= o.maxInner THEN MAXINNER
  ELSE IF total >= o.maxTotal THEN MAXTOTAL
  ELSE st
AlDoneStatus(o, ist, viol, mpen, outer, total) ==
  IF ist # SOLVED THEN ist
  ELSE IF NLt(viol, o.conTol) THEN SOLVED
  ELSE IF NGt(mpen, o.maxPen) THEN MAXPEN
  ELSE IF outer >= o.maxOuter THEN MAXOUTER
  ELSE IF total >= o.maxTotal THEN MAXTOTAL
  ELSE UNSOLVED
=============================================================================
