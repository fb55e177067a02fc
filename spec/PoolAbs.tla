------------------------------- MODULE PoolAbs -------------------------------
(* The abstract thread pool (queued, running and finished tasks, workers, tasks that are waited for): Step gives, for *)
(* an observable event, the next state and the names of the guarantees the event breaks.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

T(ok, tag) == IF ok THEN {} ELSE {tag}

(* queued/started/ended: task ids of the current pool; gated: not yet opened; awaited: tasks the next wait covers *)
S0 == [alive |-> FALSE, queued |-> {}, run |-> {}, ended |-> {}, gated |-> {}, awaited |-> {}, dropped |-> {},
       on |-> FALSE, stopping |-> FALSE, waiting |-> FALSE, workers |-> 0, busy |-> {}, open |-> FALSE, ms |-> 10000, nlo |-> 0, nhi |-> 0, slack |-> 0]
(* tasks that cannot finish now: the pool does not run, they wait for the gate, or every worker is held by one that does *)
Held(s) == s.run \cap s.gated
Stuck(s) == ~s.on \/ Cardinality(Held(s)) >= s.workers
Excused(s, k) == k \in Held(s) \/ (k \in s.queued /\ Stuck(s))

(* last: the history ends here *)
Step(s, e, last) ==
  CASE e.e = "pool" -> [s |-> [S0 EXCEPT !.alive = TRUE, !.open = s.open, !.dropped = s.queued \cup s.dropped], t |-> {}]
    [] e.e = "timeout" -> [s |-> [s EXCEPT !.ms = e.ms], t |-> {}]
    [] e.e = "add" -> [s |-> [s EXCEPT !.queued = @ \cup {e.k}, !.awaited = @ \cup {e.k},
                                        !.gated = IF e.gate = 1 /\ ~s.open THEN @ \cup {e.k} ELSE @], t |-> {}]
    [] e.e = "launching" -> [s |-> [s EXCEPT !.on = TRUE, !.workers = e.n], t |-> {}]
    [] e.e = "launch" -> [s |-> s, t |-> T(e.threads = e.n /\ e.live <= e.n, "C01:launch")]
    [] e.e = "isrunning" -> [s |-> s, t |-> T(e.v = (IF s.on THEN 1 ELSE 0), "C01:is-running")]
    [] e.e = "start" ->
         [s |-> [s EXCEPT !.queued = @ \ {e.k}, !.run = @ \cup {e.k}, !.busy = @ \cup {e.t}],
          t |-> T(e.k \in s.queued, IF e.k \in s.run \cup s.ended THEN "C01:ran-twice" ELSE "C01:ran-discarded")
                \cup T(s.on, "C01:ran-while-stopped") \cup T(Cardinality(s.run) < s.workers, "C01:workers") \cup T(e.t \notin s.busy /\ e.t # 0, "C01:worker-thread")]
    [] e.e = "end" -> [s |-> [s EXCEPT !.run = @ \ {e.k}, !.ended = @ \cup {e.k}, !.busy = @ \ {e.t}], t |-> T(e.k \in s.run, "C01:end")]
    [] e.e = "waiting" -> [s |-> [s EXCEPT !.waiting = TRUE], t |-> {}]
    [] e.e = "waited" ->
         LET open == s.awaited \ s.ended
         IN [s |-> [s EXCEPT !.awaited = {}, !.waiting = FALSE],
             t |-> T(open = {} \/ (e.timers > 0 /\ \A k \in open : Excused(s, k)), "C01:wait-returned-early")
                   \cup T(e.timers = 0 \/ open # {} \/ s.gated # {}, "C01:wait-timed-out")
                   \* the timeout is per task: every unfinished one was given its own
                   \cup T(e.timers >= Cardinality(open), "C01:wait-gave-up")
                   \cup T(e.timers = 0 \/ (e.ms <= s.ms /\ 2 * e.ms >= s.ms), "C01:wait-timeout-length")]
    [] e.e = "seen" -> [s |-> s, t |-> T(e.v = e.k + 1, "C01:result-lost")]
    [] e.e = "open" -> [s |-> [s EXCEPT !.open = TRUE, !.gated = {}], t |-> {}]
    [] e.e = "stopping" -> [s |-> s, t |-> {}]
    [] e.e = "stopped" -> [s |-> [s EXCEPT !.on = FALSE, !.workers = 0],
                           t |-> T(s.run = {} /\ e.live = 0, "C01:stop-joined") \cup T(e.threads = 0, "C01:stop-threads") \cup T(e.running = 0, "C01:is-running")]
    \* a worker may have taken a task it has not started yet
    [] e.e = "num0" -> [s |-> [s EXCEPT !.nhi = Cardinality(s.queued)], t |-> {}]
    [] e.e = "num1" -> LET idle == IF s.on THEN s.workers - Cardinality(s.run) ELSE 0
                       IN [s |-> s, t |-> T(e.v <= s.nhi /\ e.v >= Cardinality(s.queued) - idle, "C01:num-tasks")]
    [] e.e \in {"pmove", "passign"} -> [s |-> s, t |-> T(e.running = 0, "C01:is-running")]
    \* the history ends with relaunching and waiting: nothing may be left
    [] e.e = "destroying" -> [s |-> s, t |-> T(~last \/ s.awaited # {} \/ (s.queued = {} /\ s.run = {}), "C01:lost")]
    [] e.e = "destroyed" -> [s |-> [s EXCEPT !.on = FALSE, !.workers = 0, !.awaited = {}], t |-> T(s.run = {} /\ e.live = 0, "C01:stop-joined")]
=============================================================================
