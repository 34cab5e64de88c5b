----------------------------- MODULE MutexQueue -----------------------------
(***************************************************************************)
(* The queueing mutex of mutex_hdl_queue.c: one byte per process in the    *)
(* window of the hosting process, manipulated in exclusive access epochs,  *)
(* and a notification message that hands the mutex over.                   *)
(*                                                                         *)
(* Checked: mutual exclusion, a queued process is passed at most once by   *)
(* every other one, every request is granted (fairness of the steps only), *)
(* and refinement of the abstract mutex of ArmciSync.                      *)
(* Hand \in {"right", "lowest"} is who is notified; Early is a deviation   *)
(* in which the byte is cleared after the notification.  Only "right",     *)
(* FALSE is what the library does; the others show that the properties     *)
(* can fail.                                                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, Hand, Early, Rounds

M1 == 0 - 1
Proc == 0..(N - 1)
VARIABLES pc, vec, buf, msgs, todo,
          queued   \* history: process -> (process -> acquisitions since this one was queued)
vars == <<pc, vec, buf, msgs, todo, queued>>

Init == /\ pc = [p \in Proc |-> "idle"]
        /\ vec = [p \in Proc |-> 0]
        /\ buf = [p \in Proc |-> {}]
        /\ msgs = [p \in Proc |-> 0]              \* notifications on their way to p
        /\ todo = [p \in Proc |-> Rounds]
        /\ queued = <<>>

Count(f, p) == IF p \in DOMAIN f THEN f[p] ELSE 0
Grant(p) == queued' = [w \in DOMAIN queued \ {p} |-> (p :> (Count(queued[w], p) + 1)) @@ queued[w]]

Call(p) == /\ pc[p] = "idle" /\ todo[p] # 0
           /\ pc' = [pc EXCEPT ![p] = "req"] /\ todo' = [todo EXCEPT ![p] = IF @ > 0 THEN @ - 1 ELSE @]
           /\ UNCHANGED <<vec, buf, msgs, queued>>
\* the epoch of Lock: put own byte, get the others'
Enter(p) == /\ pc[p] = "req"
            /\ vec' = [vec EXCEPT ![p] = 1]
            /\ IF \A q \in Proc \ {p} : vec[q] = 0
               THEN pc' = [pc EXCEPT ![p] = "cs"] /\ Grant(p)
               ELSE pc' = [pc EXCEPT ![p] = "wait"] /\ queued' = (p :> <<>>) @@ queued
            /\ UNCHANGED <<buf, msgs, todo>>
\* the receive of the notification
Wake(p) == /\ pc[p] = "wait" /\ msgs[p] > 0
           /\ msgs' = [msgs EXCEPT ![p] = @ - 1]
           /\ pc' = [pc EXCEPT ![p] = "cs"] /\ Grant(p)
           /\ UNCHANGED <<vec, buf, todo>>
\* the epoch of Unlock: clear own byte, get the others'
Leave(p) == /\ pc[p] = "cs"
            /\ vec' = IF Early THEN vec ELSE [vec EXCEPT ![p] = 0]
            /\ buf' = [buf EXCEPT ![p] = {q \in Proc \ {p} : vec[q] = 1}]
            /\ pc' = [pc EXCEPT ![p] = "pass"]
            /\ UNCHANGED <<msgs, todo, queued>>
Next1(p) == LET d(q) == IF Hand = "right" THEN (q + N - p) % N ELSE q
            IN CHOOSE q \in buf[p] : \A r \in buf[p] : d(q) <= d(r)
Pass(p) == /\ pc[p] = "pass"
           /\ msgs' = IF buf[p] = {} THEN msgs ELSE [msgs EXCEPT ![Next1(p)] = @ + 1]
           /\ vec' = IF Early THEN [vec EXCEPT ![p] = 0] ELSE vec
           /\ buf' = [buf EXCEPT ![p] = {}]
           /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ UNCHANGED <<todo, queued>>
Step(p) == Call(p) \/ Enter(p) \/ Wake(p) \/ Leave(p) \/ Pass(p)
Next == \E p \in Proc : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Proc : WF_vars(Enter(p)) /\ WF_vars(Wake(p)) /\ WF_vars(Leave(p)) /\ WF_vars(Pass(p))

----------------------------------------------------------------------------
Mutex == \A p, q \in Proc : pc[p] = "cs" /\ pc[q] = "cs" => p = q
Bypass == \A w \in DOMAIN queued : \A q \in DOMAIN queued[w] : queued[w][q] <= 1
\* nobody sleeps on a mutex that is neither held nor being handed over
NoLostWakeup == (\E p \in Proc : pc[p] = "wait") => \E q \in Proc : pc[q] \in {"cs", "pass"} \/ msgs[q] > 0
OneMessage == \A p \in Proc : msgs[p] > 0 => pc[p] = "wait" /\ msgs[p] = 1
Quiet == (\A p \in Proc : pc[p] = "idle") => \A p \in Proc : vec[p] = 0 /\ msgs[p] = 0
Progress == \A p \in Proc : (pc[p] = "req") ~> (pc[p] = "cs")
\* with three processes and rounds left for ever, TLC needs a bound on the history: it is bounded by Bypass itself

\* refinement of the abstract mutex (handle 0, mutex 0 of process 0)
ref == INSTANCE ArmciSync WITH
  bent <- <<>>,
  mtx <- (0 :> [mem |-> [i \in 1..N |-> i - 1], n |-> (0 :> 1), live |-> Proc]),
  holder <- LET h == {p \in Proc : pc[p] = "cs"} IN IF h = {} THEN <<>> ELSE (<<0, 0, 0>> :> <<CHOOSE p \in h : TRUE, 0>>),
  want <- [w \in {<<p, 0>> : p \in {q \in Proc : pc[q] \in {"req", "wait"}}} |-> <<0, 0, 0>>],
  queued <- [w \in {<<p, 0>> : p \in DOMAIN queued} |-> [x \in {<<q, 0>> : q \in DOMAIN queued[w[1]]} |-> queued[w[1]][x[1]]]]
Refines == [][\E p \in Proc : \/ ref!LockCall(p, 0, 0, 0, 0) \/ ref!LockReturn(p, 0, 0, 0, 0)
                              \/ ref!UnlockCall(p, 0, 0, 0, 0) \/ ref!Blocked(p, 0)]_(ref!syncvars)
=============================================================================
