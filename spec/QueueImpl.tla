------------------------------ MODULE QueueImpl ------------------------------
(* The two-lock queue: a list of nodes that ends in a dummy, a lock for its head, a lock for its tail, a counter.    *)
(* Threads run small client programs; TLC explores every interleaving of the steps between synchronisation points    *)
(* of every program, and checks that the list refines the abstract sequence of QueueAbs with the marked effects.     *)
(* The programs are also what the real queue is run on (conc qgen), under schedules of the same granularity.         *)
EXTENDS QueueAbs, Json

CONSTANTS Mode          \* which client programs
VARIABLES prog, pre, pc, at, nodes, head, tail, hl, tl, size, q, pend, got
vars == <<prog, pre, pc, at, nodes, head, tail, hl, tl, size, q, pend, got>>

Ops == {"push", "pop", "empty", "size", "clear"}
S1 == {<<o>> : o \in Ops}
S2 == {<<o, p>> : o \in Ops, p \in Ops}
S3 == {<<o, p, r>> : o \in {"push", "pop"}, p \in {"push", "pop"}, r \in Ops}
Rank(o) == CASE o = "push" -> 1 [] o = "pop" -> 2 [] o = "empty" -> 3 [] o = "size" -> 4 [] o = "clear" -> 5
Key(s) == IF Len(s) = 1 THEN Rank(s[1]) ELSE IF Len(s) = 2 THEN 10 * Rank(s[1]) + Rank(s[2]) ELSE 100 * Rank(s[1]) + 10 * Rank(s[2]) + Rank(s[3])
Mutates(s) == \E k \in 1..Len(s) : s[k] \in {"push", "pop", "clear"}
Pairs(A, B) == {<<a, b>> : a \in A, b \in B}
Programs ==
  CASE Mode = "two" -> {p \in Pairs(S1 \cup S2, S1 \cup S2) : Key(p[1]) <= Key(p[2])}
    [] Mode = "three" -> {<<p[1], p[2], r>> : p \in {x \in Pairs(S1, S1) : Key(x[1]) <= Key(x[2])}, r \in S1 \cup S2}
    [] Mode = "long" -> {p \in Pairs(S2 \cup S3, S3) : Key(p[1]) <= Key(p[2])}
Useful(p) == \E k \in 1..Len(p) : Mutates(p[k])
(* values name the thread and the position of the push; the queue starts with pre elements 90, 91, ... *)
Val(t, k) == 10 * t + k
Threads == DOMAIN prog

Init == /\ prog \in {p \in Programs : Useful(p)} /\ pre \in 0..2
        /\ pc = [t \in DOMAIN prog |-> "idle"] /\ at = [t \in DOMAIN prog |-> 1]
        /\ nodes = [k \in 1..pre |-> 89 + k] /\ head = 1 /\ tail = pre + 1 /\ hl = 0 /\ tl = 0 /\ size = pre
        /\ q = [k \in 1..pre |-> 89 + k] /\ pend = [t \in DOMAIN prog |-> NONE] /\ got = [t \in DOMAIN prog |-> <<>>]
        /\ PrintT(<<"SCRIPT", ToJson([th |-> prog, pre |-> pre])>>)

Op(t) == prog[t][at[t]]
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Call(t) == /\ pc[t] = "idle" /\ at[t] <= Len(prog[t])
           /\ pend' = [pend EXCEPT ![t] = [NONE EXCEPT !.op = Op(t), !.v = IF Op(t) = "push" THEN Val(t, at[t]) ELSE 0]]
           /\ Goto(t, CASE Op(t) = "push" -> "ptail" [] Op(t) = "size" -> "size" [] OTHER -> "head")
           /\ UNCHANGED <<prog, pre, at, nodes, head, tail, hl, tl, size, q, got>>
Return(t) == /\ pc[t] = "ret" /\ pend' = [pend EXCEPT ![t] = NONE] /\ Goto(t, "idle") /\ at' = [at EXCEPT ![t] = @ + 1]
             /\ got' = [got EXCEPT ![t] = Append(@, <<pend[t].ok, pend[t].out>>)]
             /\ UNCHANGED <<prog, pre, nodes, head, tail, hl, tl, size, q>>
(* takes effect, with an answer the abstract queue allows *)
Lin(t, ok, v) == LET E == {r \in Effect(q, pend, pend[t], v) : r.ok = ok /\ r.v = v} IN
                 /\ Assert(E # {}, <<"not linearizable", prog, pre, t, ok, v, q>>)
                 /\ q' = (CHOOSE r \in E : TRUE).q
                 /\ pend' = [pend EXCEPT ![t] = [@ EXCEPT !.lin = TRUE, !.ok = ok, !.out = v]]

(* ---- push *)
PushTail(t) == /\ pc[t] = "ptail" /\ tl = 0 /\ tl' = t /\ Goto(t, "pcount") /\ UNCHANGED <<prog, pre, at, nodes, head, tail, hl, size, q, pend, got>>
PushCount(t) == /\ pc[t] = "pcount" /\ size' = size + 1 /\ Goto(t, "plink") /\ UNCHANGED <<prog, pre, at, nodes, head, tail, hl, tl, q, pend, got>>
PushLink(t) == /\ pc[t] = "plink" /\ nodes' = Append(nodes, pend[t].v) /\ tail' = tail + 1 /\ Lin(t, 1, pend[t].v)
               /\ Goto(t, "punlock") /\ UNCHANGED <<prog, pre, at, head, hl, tl, size, got>>
PushUnlock(t) == /\ pc[t] = "punlock" /\ tl' = 0 /\ Goto(t, "ret") /\ UNCHANGED <<prog, pre, at, nodes, head, tail, hl, size, q, pend, got>>
(* ---- pop, empty, clear: lock the head, then look at the tail under its own lock *)
LockHead(t) == /\ pc[t] = "head" /\ hl = 0 /\ hl' = t /\ Goto(t, "tail") /\ UNCHANGED <<prog, pre, at, nodes, head, tail, tl, size, q, pend, got>>
GetTail(t) == /\ pc[t] = "tail" /\ tl = 0
              /\ LET e == head = tail IN
                 CASE Op(t) = "empty" -> Lin(t, IF e THEN 1 ELSE 0, 0) /\ Goto(t, "unhead")
                   [] Op(t) = "pop" -> IF e THEN Lin(t, 0, -7) /\ Goto(t, "unhead") ELSE Lin(t, 1, nodes[head]) /\ Goto(t, "ocount")
                   [] Op(t) = "clear" -> IF e THEN Lin(t, 1, 0) /\ Goto(t, "unhead") ELSE Goto(t, "ocount") /\ UNCHANGED <<q, pend>>
              /\ UNCHANGED <<prog, pre, at, nodes, head, tail, hl, tl, size, got>>
Uncount(t) == /\ pc[t] = "ocount" /\ size' = size - 1 /\ Goto(t, "ohead") /\ UNCHANGED <<prog, pre, at, nodes, head, tail, hl, tl, q, pend, got>>
PopHead(t) == /\ pc[t] = "ohead" /\ head' = head + 1 /\ Goto(t, IF Op(t) = "clear" THEN "tail" ELSE "unhead")
              /\ UNCHANGED <<prog, pre, at, nodes, tail, hl, tl, size, q, pend, got>>
UnlockHead(t) == /\ pc[t] = "unhead" /\ hl' = 0 /\ Goto(t, "ret") /\ UNCHANGED <<prog, pre, at, nodes, head, tail, tl, size, q, pend, got>>
(* ---- size *)
ReadSize(t) == /\ pc[t] = "size" /\ Lin(t, 1, size) /\ Goto(t, "ret") /\ UNCHANGED <<prog, pre, at, nodes, head, tail, hl, tl, size, got>>

Done == \A t \in Threads : pc[t] = "idle" /\ at[t] > Len(prog[t])
Next == \/ \E t \in Threads : Call(t) \/ Return(t) \/ PushTail(t) \/ PushCount(t) \/ PushLink(t) \/ PushUnlock(t) \/ LockHead(t) \/ GetTail(t)
                              \/ Uncount(t) \/ PopHead(t) \/ UnlockHead(t) \/ ReadSize(t)
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* the list between head and tail is the abstract queue; while a pop or clear holds the head they differ by what it removes *)
List == [k \in 1..(tail - head) |-> nodes[head + k - 1]]
Clearing == {t \in Threads : hl = t /\ Op(t) = "clear" /\ pc[t] \in {"tail", "ocount", "ohead"}}
Popping == {t \in Threads : hl = t /\ Op(t) = "pop" /\ pc[t] \in {"ocount", "ohead"}}
Refines == CASE Clearing # {} -> \E k \in 0..Len(q) : List = SubSeq(q, k + 1, Len(q))
             [] Popping # {} -> List = <<nodes[head]>> \o q
             [] OTHER -> List = q
Inv == /\ Refines
       /\ size >= 0 /\ head <= tail /\ tail = Len(nodes) + 1
       /\ (hl = 0 \/ pc[hl] \in {"tail", "ocount", "ohead", "unhead"}) /\ (tl = 0 \/ pc[tl] \in {"pcount", "plink", "punlock"})
       /\ (Done => size = Len(q) /\ hl = 0 /\ tl = 0)
       \* nothing is lost, duplicated or made up
       /\ (Done => LET pushed == pre + Cardinality({<<t, k>> \in Threads \X (1..3) : k <= Len(prog[t]) /\ prog[t][k] = "push"})
                   IN Len(nodes) = pushed /\ Len(q) <= pushed)
=============================================================================
