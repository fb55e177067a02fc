-------------------------------- MODULE Num --------------------------------
(* Exact rational arithmetic over the values the code really computes with.  A number is a TLA+ integer or a    *)
(* string ("p/q", or a C99 hex float as recorded from the code; every finite double is a rational).  TLC         *)
(* evaluates these operators by java/NumOverrides.java; the right-hand sides below only fix their meaning:        *)
(* Val maps a representation to the real number it denotes (or NaN/+-inf), and "@@" marks an uninterpreted map.    *)
(* Arithmetic on a non-finite operand gives "nan"; a comparison with "nan" is FALSE.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NVal(a)    == CHOOSE c \in STRING : TRUE      \* canonical representation of the number a
NAdd(a, b) == CHOOSE c \in STRING : TRUE      \* a + b
NSub(a, b) == CHOOSE c \in STRING : TRUE      \* a - b
NMul(a, b) == CHOOSE c \in STRING : TRUE      \* a * b
NDiv(a, b) == CHOOSE c \in STRING : TRUE      \* a / b ("nan" for b = 0)
NNeg(a)    == CHOOSE c \in STRING : TRUE      \* -a
NAbs(a)    == CHOOSE c \in STRING : TRUE      \* |a|
NMax(a, b) == CHOOSE c \in STRING : TRUE
NMin(a, b) == CHOOSE c \in STRING : TRUE
NLt(a, b)  == CHOOSE c \in BOOLEAN : TRUE     \* a < b
NLe(a, b)  == CHOOSE c \in BOOLEAN : TRUE     \* a <= b
NEq(a, b)  == CHOOSE c \in BOOLEAN : TRUE     \* a = b as numbers
NFin(a)    == CHOOSE c \in BOOLEAN : TRUE     \* a is finite
NSum(s)    == CHOOSE c \in STRING : TRUE      \* sum of a sequence
NDot(s, t) == CHOOSE c \in STRING : TRUE      \* inner product of two sequences
NClose(a, b, rt, at) == CHOOSE c \in BOOLEAN : TRUE  \* |a-b| <= at + rt*max(|a|,|b|)
NDouble(a) == CHOOSE c \in STRING : TRUE      \* nearest IEEE double
NFloat(a)  == CHOOSE c \in STRING : TRUE      \* nearest IEEE float
NSin(a)    == CHOOSE c \in STRING : TRUE      \* sin, to double accuracy
NCos(a)    == CHOOSE c \in STRING : TRUE
NSqrt(a)   == CHOOSE c \in STRING : TRUE
NFloor(a)  == CHOOSE c \in Int : TRUE
NFmtE(p, a) == CHOOSE c \in STRING : TRUE     \* C printf "%.<p>e"
NFmtF(p, a) == CHOOSE c \in STRING : TRUE     \* C printf "%.<p>f"

Strict(v) == v                                \* identity; makes TLC evaluate v once and for all
Rnd(v) == v                                   \* v with every number rounded to the nearest double

NGt(a, b) == NLt(b, a)
NGe(a, b) == NLe(b, a)
NClamp(x, lo, hi) == NMin(NMax(x, lo), hi)
(* default tolerance of comparisons between exact results and results computed in doubles *)
RT == "1e-9"
AT == "1e-9"
Close(a, b) == NClose(a, b, RT, AT)

(* ------------------------------ vectors ------------------------------ *)
VDim(v) == Len(v)
VAdd(v, w) == [i \in 1..Len(v) |-> NAdd(v[i], w[i])]
VSub(v, w) == [i \in 1..Len(v) |-> NSub(v[i], w[i])]
VScale(a, v) == [i \in 1..Len(v) |-> NMul(a, v[i])]
VMulE(v, w) == [i \in 1..Len(v) |-> NMul(v[i], w[i])]
VZero(n) == [i \in 1..n |-> 0]
VEq(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : NEq(v[i], w[i])
VClose(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : Close(v[i], w[i])
VCloseTol(v, w, rt, at) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : NClose(v[i], w[i], rt, at)
VSq(v) == NDot(v, v)
RECURSIVE VMaxAbsFrom(_, _)
VMaxAbsFrom(v, i) == IF i > Len(v) THEN 0 ELSE NMax(NAbs(v[i]), VMaxAbsFrom(v, i + 1))
VMaxAbs(v) == VMaxAbsFrom(v, 1)
VFin(v) == \A i \in 1..Len(v) : NFin(v[i])
RECURSIVE VMaxFrom(_, _)
VMaxFrom(v, i) == IF i = Len(v) THEN v[i] ELSE NMax(v[i], VMaxFrom(v, i + 1))
VMaxOf(v) == VMaxFrom(v, 1)

(* ------------------------------ matrices (sequences of rows) ------------------------------ *)
MRows(A) == Len(A)
MCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
MT(A) == [j \in 1..MCols(A) |-> [i \in 1..Len(A) |-> A[i][j]]]
MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B) == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MScale(a, A) == [i \in 1..Len(A) |-> VScale(a, A[i])]
MVec(A, v) == [i \in 1..Len(A) |-> NDot(A[i], v)]
MMul(A, B) == LET Bt == MT(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> NDot(A[i], Bt[j])]]
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MZero(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
MEq(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VEq(A[i], B[i])
MClose(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VClose(A[i], B[i])
MCloseTol(A, B, rt, at) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VCloseTol(A[i], B[i], rt, at)
MSubCols(A, lo, hi) == [i \in 1..Len(A) |-> SubSeq(A[i], lo, hi)]
=============================================================================
