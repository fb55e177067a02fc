------------------------------ MODULE PoolTrace ------------------------------
(* Thread pool histories: every recorded event must be allowed by the abstract pool of PoolAbs.                       *)
EXTENDS PoolAbs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Ev == Traces[tr].ev
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = S0


LastEv == ~\E j \in i + 1..Len(Ev) : Ev[j].e = "destroying"
Rej(tags) == \A t \in tags : PrintT(<<"REJECT", t, Traces[tr].id, i>>)
Next ==
  \/ /\ i <= Len(Ev)
     /\ LET r == Step(s, Ev[i], LastEv) IN /\ Rej(r.t) /\ s' = r.s
     /\ i' = i + 1 /\ UNCHANGED tr
  \/ /\ i = Len(Ev) + 1
     /\ IF Traces[tr].bad = ""
          THEN TRUE
          ELSE PrintT(<<"REJECT", "C01:" \o Traces[tr].bad, Traces[tr].id, Len(Ev)>>)
     /\ PrintT(<<"DONE", Traces[tr].id, Len(Ev)>>)
     /\ i' = i + 1 /\ UNCHANGED <<tr, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
