----------------------------- MODULE QueueTrace -----------------------------
(* Linearizability of recorded queue histories.  The specification state is the abstract FIFO; every pending        *)
(* operation takes effect atomically at some moment between its invocation and its response.  A history is         *)
(* accepted when some choice of these moments explains every response (DONE); otherwise no behaviour of this       *)
(* specification reaches its end.                                                                                   *)
EXTENDS QueueAbs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, q, pend      \* pend: thread -> [op, v, lin, ok, out]
vars == <<tr, i, q, pend>>
Ev == Traces[tr].ev
Threads == 0..15

Init == tr \in 1..Len(Traces) /\ i = 1 /\ q = <<>> /\ pend = [t \in Threads |-> NONE]

Pending(t) == pend[t].op # "none"
Inv == /\ i <= Len(Ev) /\ Ev[i].e = "inv"
       /\ pend' = [pend EXCEPT ![Ev[i].t] = [NONE EXCEPT !.op = Ev[i].op, !.v = Ev[i].v]]
       /\ i' = i + 1 /\ UNCHANGED <<tr, q>>
(* operations take effect as late as possible: just before a response that needs it *)
Lin(t) == /\ i <= Len(Ev) /\ Ev[i].e = "res" /\ ~pend[Ev[i].t].lin
          /\ Pending(t) /\ ~pend[t].lin
          /\ (pend[t].op = "size" => t = Ev[i].t)
          /\ \E r \in Effect(q, pend, pend[t], Ev[i].v) :
               /\ (t = Ev[i].t => r.ok = Ev[i].ok /\ r.v = Ev[i].v)
               /\ q' = r.q
               /\ pend' = [pend EXCEPT ![t] = [@ EXCEPT !.lin = TRUE, !.ok = r.ok, !.out = r.v]]
          /\ UNCHANGED <<tr, i>>
Res == /\ i <= Len(Ev) /\ Ev[i].e = "res"
       /\ LET p == pend[Ev[i].t] IN p.op = Ev[i].op /\ p.lin /\ p.ok = Ev[i].ok /\ p.out = Ev[i].v
       /\ pend' = [pend EXCEPT ![Ev[i].t] = NONE]
       /\ i' = i + 1 /\ UNCHANGED <<tr, q>>
(* moves happen between phases; the abstract queue is the contents of the source *)
Move == /\ i <= Len(Ev) /\ Ev[i].e \in {"move", "assign"} /\ \A t \in Threads : ~Pending(t)
        /\ i' = i + 1 /\ UNCHANGED <<tr, q, pend>>
Bad == /\ i = 1 /\ Traces[tr].bad # "" /\ PrintT(<<"REJECT", "C02:" \o Traces[tr].bad, Traces[tr].id, Len(Ev)>>)
       /\ FALSE /\ UNCHANGED vars
End == /\ i = Len(Ev) + 1 /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>) /\ i' = i + 1 /\ UNCHANGED <<tr, q, pend>>
Next == Inv \/ (\E t \in Threads : Lin(t)) \/ Res \/ Move \/ Bad \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
