------------------------------ MODULE PoolImpl ------------------------------
(* The thread pool as built: workers that spin on a running flag and a shared queue, futures the client waits for in  *)
(* order of submission, each for at most a timeout.  The client runs every legal program of up to MaxOps operations    *)
(* (and a tail that runs whatever is left); TLC explores the interleavings and checks that every observable event is    *)
(* allowed by PoolAbs, that nothing is lost, and that the client always gets to its end.                                *)
(* The programs are also what the real pool is run on (conc pgen).                                                      *)
EXTENDS PoolAbs, Json

CONSTANTS MaxOps, MaxWorkers
VARIABLES prog, at, mpc, n, on, wpc, wtask, queue, futs, ready, open, nk, timers, s, viol
vars == <<prog, at, mpc, n, on, wpc, wtask, queue, futs, ready, open, nk, timers, s, viol>>

(* ------------------------------------------------------------------ client programs *)
(* ru: running, gt: a task that waits for the gate was submitted, op: the gate is open, na: submitted tasks, nl: launched threads *)
RECURSIVE Progs(_, _, _, _, _, _)
Progs(len, ru, gt, op, na, nl) ==
  {<<>>} \cup
  IF len = 0 THEN {}
  ELSE LET With(o, S) == {<<o>> \o p : p \in S}
           Shut == ~gt \/ op           \* joining the workers cannot block
       IN UNION {
            IF na < 3 THEN With("add", Progs(len - 1, ru, gt, op, na + 1, nl)) ELSE {},
            IF na < 3 /\ ~op THEN With("gated", Progs(len - 1, ru, TRUE, op, na + 1, nl)) ELSE {},
            IF ~ru /\ nl + 1 <= MaxWorkers THEN With("launch1", Progs(len - 1, TRUE, gt, op, na, nl + 1)) ELSE {},
            IF ~ru /\ nl + 2 <= MaxWorkers THEN With("launch2", Progs(len - 1, TRUE, gt, op, na, nl + 2)) ELSE {},
            IF na > 0 THEN With("wait", Progs(len - 1, ru, gt, op, na, nl)) ELSE {},
            IF ru /\ Shut THEN With("stop", Progs(len - 1, FALSE, gt, op, na, nl)) ELSE {},
            IF gt /\ ~op THEN With("open", Progs(len - 1, ru, gt, TRUE, na, nl)) ELSE {},
            IF na > 0 THEN With("num", Progs(len - 1, ru, gt, op, na, nl)) ELSE {},
            IF ~ru /\ na > 0 THEN With("move", Progs(len - 1, ru, gt, op, na, nl)) ELSE {},
            IF Shut /\ (na > 0 \/ ru) THEN With("destroy", Progs(len - 1, FALSE, FALSE, op, na, nl)) ELSE {}}
Ends(p) == p # <<>> /\ \E k \in 1..Len(p) : p[k] \in {"add", "gated"}
Has(p, o) == \E k \in 1..Len(p) : p[k] = o
Running(p) == \E k \in 1..Len(p) : p[k] \in {"launch1", "launch2"} /\ \A j \in k + 1..Len(p) : p[j] \notin {"stop", "destroy"}
Closed(p) == p \o (IF Has(p, "gated") /\ ~Has(p, "open") THEN <<"open">> ELSE <<>>) \o (IF Running(p) THEN <<"stop">> ELSE <<>>)
             \o <<"launch1", "add", "wait", "num", "last">>
Workers == 1..(MaxWorkers + 1)

Init == /\ prog \in {Closed(p) : p \in {x \in Progs(MaxOps, FALSE, FALSE, FALSE, 0, 0) : Ends(x)}}
        /\ at = 1 /\ mpc = "choose" /\ n = 0 /\ on = FALSE /\ wpc = [w \in Workers |-> "none"] /\ wtask = [w \in Workers |-> -1]
        /\ queue = <<>> /\ futs = <<>> /\ ready = {} /\ open = FALSE /\ nk = 0 /\ timers = 0
        /\ s = Step(S0, [e |-> "pool"], FALSE).s /\ viol = {}
        /\ PrintT(<<"SCRIPT", ToJson(prog)>>)

(* ------------------------------------------------------------------ observable events *)
RECURSIVE Apply(_, _, _)
Apply(st, es, bad) == IF es = <<>> THEN [s |-> st, t |-> bad] ELSE LET r == Step(st, Head(es), mpc = "choose" /\ prog[at] = "last") IN Apply(r.s, Tail(es), bad \cup r.t)
Emit(es) == LET r == Apply(s, es, {}) IN s' = r.s /\ viol' = viol \cup r.t
Quiet == UNCHANGED <<s, viol>>

Alive == {w \in Workers : wpc[w] \notin {"none", "dead"}}
Used == Cardinality({w \in Workers : wpc[w] # "none"})
Gated(k) == k \in s.gated

(* ------------------------------------------------------------------ the client *)
Nxt == at' = at + 1 /\ mpc' = "choose"
Op == prog[at]
KeepW == UNCHANGED <<wpc, wtask>>
Add == /\ mpc = "choose" /\ Op \in {"add", "gated"} /\ Emit(<<[e |-> "add", k |-> nk, gate |-> IF Op = "gated" THEN 1 ELSE 0]>>)
       /\ mpc' = "push" /\ UNCHANGED <<prog, at, n, on, wpc, wtask, queue, futs, ready, open, nk, timers>>
Push == /\ mpc = "push" /\ queue' = Append(queue, nk) /\ futs' = Append(futs, nk) /\ nk' = nk + 1 /\ Nxt /\ Quiet
        /\ UNCHANGED <<prog, n, on, wpc, wtask, ready, open, timers>>
Launch == /\ mpc = "choose" /\ Op \in {"launch1", "launch2"} /\ LET m == IF Op = "launch1" THEN 1 ELSE 2 IN n' = m /\ Emit(<<[e |-> "launching", n |-> m]>>)
          /\ on' = TRUE /\ mpc' = "spawn" /\ UNCHANGED <<prog, at, wpc, wtask, queue, futs, ready, open, nk, timers>>
Spawn == /\ mpc = "spawn" /\ n > 0 /\ wpc' = [wpc EXCEPT ![Used + 1] = "check"] /\ n' = n - 1 /\ Quiet
         /\ UNCHANGED <<prog, at, mpc, on, wtask, queue, futs, ready, open, nk, timers>>
Spawned == /\ mpc = "spawn" /\ n = 0
           /\ LET m == IF Op = "launch1" THEN 1 ELSE 2 IN
              Emit(<<[e |-> "launch", n |-> m, threads |-> m, live |-> Cardinality(Alive)], [e |-> "isrunning", v |-> IF on THEN 1 ELSE 0]>>)
           /\ Nxt /\ UNCHANGED <<prog, n, on, wpc, wtask, queue, futs, ready, open, nk, timers>>
WaitBegin == /\ mpc = "choose" /\ Op = "wait" /\ Emit(<<[e |-> "waiting"]>>) /\ mpc' = "wait" /\ n' = 1 /\ timers' = 0
             /\ UNCHANGED <<prog, at, on, wpc, wtask, queue, futs, ready, open, nk>>
(* time passes only when no worker has anything to do *)
Busy == \E w \in Workers : (wpc[w] \in {"start", "end"}) \/ (wpc[w] = "run" /\ (open \/ ~Gated(wtask[w]))) \/ (wpc[w] \in {"check", "pop"} /\ on /\ queue # <<>>)
                           \/ (wpc[w] = "pop" /\ queue # <<>>)
WaitReady == /\ mpc = "wait" /\ n <= Len(futs) /\ (futs[n] \in ready \/ ~Busy) /\ n' = n + 1
             /\ timers' = (IF futs[n] \in ready THEN timers ELSE timers + 1) /\ Quiet
             /\ UNCHANGED <<prog, at, mpc, on, wpc, wtask, queue, futs, ready, open, nk>>
WaitEnd == /\ mpc = "wait" /\ n > Len(futs) /\ Emit(<<[e |-> "waited", timers |-> timers, ms |-> 10000]>>) /\ futs' = <<>> /\ Nxt
           /\ UNCHANGED <<prog, n, on, wpc, wtask, queue, ready, open, nk, timers>>
Stop == /\ mpc = "choose" /\ Op = "stop" /\ Emit(<<[e |-> "stopping"]>>) /\ on' = FALSE /\ mpc' = "join"
        /\ UNCHANGED <<prog, at, n, wpc, wtask, queue, futs, ready, open, nk, timers>>
Joined == /\ mpc = "join" /\ Alive = {} /\ Emit(<<[e |-> "stopped", threads |-> 0, live |-> 0, running |-> 0]>>) /\ Nxt
          /\ UNCHANGED <<prog, n, on, wpc, wtask, queue, futs, ready, open, nk, timers>>
Num == /\ mpc = "choose" /\ Op = "num" /\ Emit(<<[e |-> "num0", v |-> 0]>>) /\ mpc' = "num"
       /\ UNCHANGED <<prog, at, n, on, wpc, wtask, queue, futs, ready, open, nk, timers>>
NumRead == /\ mpc = "num" /\ Emit(<<[e |-> "num1", v |-> Len(queue)]>>) /\ Nxt
           /\ UNCHANGED <<prog, n, on, wpc, wtask, queue, futs, ready, open, nk, timers>>
Open == /\ mpc = "choose" /\ Op = "open" /\ Emit(<<[e |-> "open", g |-> 0]>>) /\ open' = TRUE /\ Nxt
        /\ UNCHANGED <<prog, n, on, wpc, wtask, queue, futs, ready, nk, timers>>
Move == /\ mpc = "choose" /\ Op = "move" /\ Emit(<<[e |-> "pmove", running |-> 0]>>) /\ Nxt
        /\ UNCHANGED <<prog, n, on, wpc, wtask, queue, futs, ready, open, nk, timers>>
Destroy == /\ mpc = "choose" /\ Op \in {"destroy", "last"} /\ Emit(<<[e |-> "destroying", live |-> 0]>>) /\ on' = FALSE /\ mpc' = "djoin"
           /\ UNCHANGED <<prog, at, n, wpc, wtask, queue, futs, ready, open, nk, timers>>
Destroyed == /\ mpc = "djoin" /\ Alive = {} /\ Emit(<<[e |-> "destroyed", live |-> 0], [e |-> "pool"]>>) /\ queue' = <<>> /\ futs' = <<>> /\ Nxt
             /\ UNCHANGED <<prog, n, on, wpc, wtask, ready, open, nk, timers>>
Done == at > Len(prog)
Client == ~Done /\ (Add \/ Push \/ Launch \/ Spawn \/ Spawned \/ WaitBegin \/ WaitReady \/ WaitEnd \/ Stop \/ Joined \/ Num \/ NumRead \/ Open \/ Move \/ Destroy \/ Destroyed)

(* ------------------------------------------------------------------ a worker *)
Go(w, l) == wpc' = [wpc EXCEPT ![w] = l]
KeepM == UNCHANGED <<prog, at, mpc, n, on, futs, open, nk, timers>>
Check(w) == /\ wpc[w] = "check" /\ Go(w, IF on THEN "pop" ELSE "dead") /\ UNCHANGED <<wtask, queue, ready>> /\ Quiet /\ KeepM
Pop(w) == /\ wpc[w] = "pop"
          /\ IF queue = <<>> THEN Go(w, "check") /\ UNCHANGED <<wtask, queue>>
             ELSE Go(w, "start") /\ wtask' = [wtask EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
          /\ UNCHANGED ready /\ Quiet /\ KeepM
Start(w) == /\ wpc[w] = "start" /\ Go(w, "run") /\ Emit(<<[e |-> "start", k |-> wtask[w], t |-> w]>>) /\ UNCHANGED <<wtask, queue, ready>> /\ KeepM
Run(w) == /\ wpc[w] = "run" /\ (open \/ ~Gated(wtask[w])) /\ Go(w, "end") /\ Emit(<<[e |-> "end", k |-> wtask[w], t |-> w]>>) /\ UNCHANGED <<wtask, queue, ready>> /\ KeepM
Finish(w) == /\ wpc[w] = "end" /\ Go(w, "check") /\ ready' = ready \cup {wtask[w]} /\ wtask' = [wtask EXCEPT ![w] = -1] /\ UNCHANGED queue /\ Quiet /\ KeepM
Worker(w) == Check(w) \/ Pop(w) \/ Start(w) \/ Run(w) \/ Finish(w)

Next == Client \/ (\E w \in Workers : Worker(w)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Client) /\ \A w \in Workers : WF_vars(Worker(w))

Inv == /\ viol = {}
       /\ (Done => Alive = {} /\ queue = <<>>)
       \* a task is in one place, and nothing that was submitted to this pool disappears
       /\ \A w \in Workers : wpc[w] \in {"start", "run", "end"} => \A k \in 1..Len(queue) : queue[k] # wtask[w]
       /\ (mpc = "choose" => s.queued = {queue[k] : k \in 1..Len(queue)} \cup {wtask[w] : w \in {x \in Workers : wpc[x] = "start"}})
Terminates == <>Done
=============================================================================
