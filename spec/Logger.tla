-------------------------------- MODULE Logger --------------------------------
(* The iteration logger (C18): which columns, rows and headers are printed, with which values and colours, and what   *)
(* complete solves print.  Output is a sequence of lines [s: visible text, g: runs of equally coloured text].          *)
EXTENDS Num, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
T(ok, tag) == IF ok THEN {} ELSE {tag}
White == 16777215
Green == 32768
Red == 16711680
AnyC == -2            \* a colour that is not determined

S0 == [order |-> <<>>, ent |-> <<>>, level |-> 0, freq |-> 10, count |-> 0, hc |-> White]
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = S0

RECURSIVE Rep(_, _)
Rep(ch, n) == IF n <= 0 THEN "" ELSE ch \o Rep(ch, n - 1)
Pad(t, w) == Rep(" ", w - Len(t)) \o t            \* right aligned, never cut

Active(t) == s.ent[t].level <= s.level
Columns == SelectSeq(s.order, Active)
RECURSIVE Cells(_, _)
Cells(cells, cs) == IF cells = <<>> THEN <<>> ELSE <<[c |-> Head(cs), s |-> Head(cells)], [c |-> -1, s |-> " "]>> \o Cells(Tail(cells), Tail(cs))
RECURSIVE Width(_)
Width(cols) == IF cols = <<>> THEN 0 ELSE s.ent[Head(cols)].width + 1 + Width(Tail(cols))

HeaderLines ==
  IF s.level = 0 \/ Columns = <<>> THEN <<>>
  ELSE LET c == Columns IN <<Cells([j \in 1..Len(c) |-> Pad(c[j], s.ent[c[j]].width)], [j \in 1..Len(c) |-> s.hc]),
                              <<[c |-> s.hc, s |-> Rep("-", Width(c))]>>>>
DataLines ==
  IF s.level = 0 \/ Columns = <<>> THEN <<>>
  ELSE LET c == Columns
           D(t) == s.ent[t].data
       IN <<Cells([j \in 1..Len(c) |-> Pad(D(c[j]), s.ent[c[j]].width)], [j \in 1..Len(c) |-> IF D(c[j]) = "" THEN AnyC ELSE s.ent[c[j]].color])>>

RECURSIVE Text(_)
Text(g) == IF g = <<>> THEN "" ELSE Head(g).s \o Text(Tail(g))
SameText(out, want) == Len(out) = Len(want) /\ \A l \in 1..Len(out) : out[l].s = Text(want[l])
SameColours(out, want) ==
  \A l \in 1..Len(out) : /\ Len(out[l].g) = Len(want[l])
                         /\ \A q \in 1..Len(want[l]) : want[l][q].c \in {AnyC, out[l].g[q].c}
Prints(out, want, what) ==
  IF ~SameText(out, want) THEN {"C18:" \o what \o (IF Len(out) # Len(want) THEN "-lines" ELSE "-text")}
  ELSE T(SameColours(out, want), "C18:colour")

InsertAt(q, j, x) == SubSeq(q, 1, j) \o <<x>> \o SubSeq(q, j + 1, Len(q))
ColourOf(e, v) == IF ~e.bounded THEN White ELSE IF NLt(v, e.lo) THEN e.cl ELSE IF NGt(v, e.hi) THEN e.ch ELSE White

(* ------------------------------ complete solves ------------------------------ *)
SolveCols == <<"iters", "iter_al", "cost", "viol", "dJ", "grad", "alpha", "reg", "z", "pen">>
SolveLevel == [iters |-> 2, iter_al |-> 1, cost |-> 3, viol |-> 3, dJ |-> 3, grad |-> 2, alpha |-> 3, reg |-> 4, z |-> 4, pen |-> 5]
SolveWidth == [iters |-> 6, iter_al |-> 8, cost |-> 10, viol |-> 10, dJ |-> 10, grad |-> 10, alpha |-> 6, reg |-> 7, z |-> 5, pen |-> 7]
Fmt4(n) == Pad(ToString(n), 4)
SolveRow(e, j, al) ==    \* texts of row j, of which al outer iterations are over
  LET On(t) == SolveLevel[t] <= e.verb
      cols == SelectSeq(SolveCols, On)
      Val(t) == CASE t = "iters" -> IF e.verb >= 3 THEN Fmt4(j) ELSE "*"
                  [] t = "iter_al" -> IF e.al THEN Fmt4(al) ELSE ""
                  [] OTHER -> IF e.verb >= 3 THEN e[t][j] ELSE "*"
  IN [q \in 1..Len(cols) |-> [t |-> cols[q], v |-> Val(cols[q])]]
(* the cells of a printed row, cut at the column widths; "*" matches anything, and a series that was never logged is blank *)
RECURSIVE RowMatches(_, _, _, _)
RowMatches(line, row, e, j) ==
  IF row = <<>> THEN line = ""
  ELSE LET c == Head(row)  w == SolveWidth[c.t]
           full == IF c.v = "*" THEN Rep(" ", w) ELSE Pad(c.v, w)
           n == Len(full) + 1
       IN IF Len(line) >= n /\ (c.v = "*" \/ SubSeq(line, 1, n) = full \o " ")
          THEN RowMatches(SubSeq(line, n + 1, Len(line)), Tail(row), e, j)
          ELSE /\ (c.t \in {"cost", "alpha", "z"} \/ (c.t = "pen" /\ ~e.al)) /\ Len(line) >= w + 1 /\ SubSeq(line, 1, w + 1) = Rep(" ", w + 1)
               /\ \A l \in 1..j : e[c.t][l] = e[c.t][1]
               /\ RowMatches(SubSeq(line, w + 2, Len(line)), Tail(row), e, j)
RECURSIVE HeadText(_)
HeadText(cols) == IF cols = <<>> THEN "" ELSE Pad(Head(cols), SolveWidth[Head(cols)]) \o " " \o HeadText(Tail(cols))
IsHeader(l, e) == LET On(t) == SolveLevel[t] <= e.verb IN l.s = HeadText(SelectSeq(SolveCols, On))
IsRule(l) == l.s # "" /\ l.s = Rep("-", Len(l.s))
(* lines -> sequence of "h" (header and rule) and row indices *)
RECURSIVE Layout(_, _, _, _, _)
Layout(out, e, l, hdrs, rows) ==   \* TRUE iff the lines from l on are headers and correct rows
  IF l > Len(out) THEN /\ rows = (IF e.verb >= 3 THEN e.total ELSE IF e.al THEN e.outer ELSE 0)
                       /\ hdrs = (IF e.verb >= 3 /\ e.al THEN (IF e.total = 0 THEN 0 ELSE e.outer)
                                  ELSE IF e.verb >= 3 THEN (IF e.total = 0 THEN 0 ELSE 1) ELSE (rows + e.hf - 1) \div e.hf)
  ELSE IF IsHeader(out[l], e)
  THEN /\ l < Len(out) /\ IsRule(out[l + 1])
       /\ (e.verb >= 3) \/ (rows % e.hf = 0 /\ hdrs = rows \div e.hf)
       /\ (e.verb >= 3 /\ ~e.al) => hdrs = 0
       /\ Layout(out, e, l + 2, hdrs + 1, rows)
  ELSE /\ hdrs > 0
       /\ (e.verb < 3 => hdrs = rows \div e.hf + 1)
       /\ RowMatches(out[l].s, SolveRow(e, rows + 1, IF e.verb >= 3 THEN hdrs - 1 ELSE rows + 1), e, rows + 1)
       /\ Layout(out, e, l + 1, hdrs, rows + 1)
SolveOut(e) == IF e.verb = 0 \/ (~e.al /\ e.verb < 3) THEN T(e.out = <<>>, "C18:solve-silent") ELSE T(Layout(e.out, e, 1, 0, 0), "C18:solve-output")

Step(e) ==
  CASE e.e = "logger" -> [s |-> [S0 EXCEPT !.level = e.level], t |-> {}]
    [] e.e = "add" ->
         LET pos == IF e.col < 0 THEN Len(s.order) + e.col + 1 ELSE e.col
             ent == [level |-> e.level, width |-> e.width, data |-> "", color |-> AnyC, bounded |-> FALSE,
                     lo |-> "-inf", hi |-> "inf", cl |-> Green, ch |-> Red]
         IN [s |-> [s EXCEPT !.order = InsertAt(@, pos, e.title), !.ent = (e.title :> ent) @@ @], t |-> {}]
    [] e.e = "entries" -> [s |-> s, t |-> T(e.n = Len(s.order), "C18:entries")]
    [] e.e = "level" -> [s |-> [s EXCEPT !.level = e.level], t |-> {}]
    [] e.e = "getlevel" -> [s |-> s, t |-> T(e.level = s.level, "C18:level")]
    [] e.e = "freq" -> [s |-> [s EXCEPT !.freq = e.f], t |-> {}]
    [] e.e = "hcolor" -> [s |-> [s EXCEPT !.hc = e.c], t |-> {}]
    [] e.e = "move" -> [s |-> s, t |-> {}]
    [] e.e = "clear" -> [s |-> [s EXCEPT !.count = 0, !.ent = [t \in DOMAIN @ |-> [@[t] EXCEPT !.data = ""]]], t |-> {}]
    [] e.e = "width" -> [s |-> [s EXCEPT !.ent[e.title].width = e.v], t |-> {}]
    [] e.e = "elevel" -> [s |-> [s EXCEPT !.ent[e.title].level = e.v], t |-> {}]
    [] e.e = "lower" -> [s |-> [s EXCEPT !.ent[e.title] = [@ EXCEPT !.bounded = TRUE, !.lo = e.v, !.cl = e.c, !.color = AnyC]], t |-> {}]
    [] e.e = "upper" -> [s |-> [s EXCEPT !.ent[e.title] = [@ EXCEPT !.bounded = TRUE, !.hi = e.v, !.ch = e.c, !.color = AnyC]], t |-> {}]
    [] e.e = "log" ->
         [s |-> IF e.title \in DOMAIN s.ent /\ s.level > 0 /\ Active(e.title)
                  THEN [s EXCEPT !.ent[e.title] = [@ EXCEPT !.data = e.txt, !.color = ColourOf(s.ent[e.title], e.v)]] ELSE s, t |-> {}]
    [] e.e = "header" -> [s |-> s, t |-> Prints(e.out, HeaderLines, "header")]
    [] e.e = "data" -> [s |-> s, t |-> Prints(e.out, DataLines, "row")]
    [] e.e = "print" ->
         IF s.level = 0 THEN [s |-> s, t |-> T(e.out = <<>>, "C18:silent")]
         ELSE [s |-> [s EXCEPT !.count = @ + 1],
               t |-> Prints(e.out, (IF s.count % s.freq = 0 THEN HeaderLines ELSE <<>>) \o DataLines, "print")]
    [] e.e = "solve" -> [s |-> s, t |-> SolveOut(e)]
    [] e.e = "crash" -> [s |-> s, t |-> {"C18:" \o e.how}]

Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(Ev[i]) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
