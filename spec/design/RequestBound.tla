---------------------------- MODULE RequestBound ----------------------------
(***************************************************************************)
(* Open MPI 5's limit on unfinished request-based operations (gmr.c): the  *)
(* library counts the operations of the process and, when Limit were       *)
(* issued since the last time, flushes every window before the next one.   *)
(* Threads issue under a lock held from the check to the counting.         *)
(*                                                                         *)
(* Checked: never more than Limit operations of the process are            *)
(* unfinished, and issuing never stops for good.                           *)
(* Deviations: Flush = "one" (only the window of the operation), "none"    *)
(* (the counter starts again), Count = "window" (one counter per window),  *)
(* Lock = "check" (the lock is released between check and counting).       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Windows, Threads, Limit, MaxOps, Flush, Count, Lock
VARIABLES out,    \* window -> unfinished operations
          cnt,    \* counters
          pc,     \* thread -> <<where, window>>
          lock,   \* thread that holds the lock, 0: none
          done    \* operations issued
vars == <<out, cnt, pc, lock, done>>
W == 1..Windows
T == 1..Threads
C(w) == IF Count = "window" THEN w ELSE 1
Init == out = [w \in W |-> 0] /\ cnt = [w \in W |-> 0] /\ pc = [t \in T |-> <<"out", 0>>] /\ lock = 0 /\ done = 0
Begin(t) == /\ pc[t][1] = "out" /\ lock = 0 /\ done + Cardinality({u \in T : pc[u][1] # "out"}) < MaxOps
            /\ lock' = t /\ \E w \in W : pc' = [pc EXCEPT ![t] = <<"check", w>>]
            /\ UNCHANGED <<out, cnt, done>>
Check(t) == /\ pc[t][1] = "check" /\ lock = t
            /\ IF cnt[C(pc[t][2])] >= Limit
               THEN /\ cnt' = [cnt EXCEPT ![C(pc[t][2])] = 0]
                    /\ out' = [w \in W |-> IF Flush = "all" \/ (Flush = "one" /\ w = pc[t][2]) THEN 0 ELSE out[w]]
               ELSE UNCHANGED <<cnt, out>>
            /\ lock' = (IF Lock = "check" THEN 0 ELSE t)
            /\ pc' = [pc EXCEPT ![t] = <<"issue", pc[t][2]>>] /\ UNCHANGED done
Issue(t) == /\ pc[t][1] = "issue"
            /\ out' = [out EXCEPT ![pc[t][2]] = @ + 1] /\ done' = done + 1
            /\ pc' = [pc EXCEPT ![t] = <<"count", pc[t][2]>>] /\ UNCHANGED <<cnt, lock>>
End(t) == /\ pc[t][1] = "count" /\ (Lock = "check" => lock = 0)
          /\ cnt' = [cnt EXCEPT ![C(pc[t][2])] = @ + 1]
          /\ lock' = (IF Lock = "check" THEN lock ELSE 0) /\ pc' = [pc EXCEPT ![t] = <<"out", 0>>] /\ UNCHANGED <<out, done>>
Finish == \E w \in W : out[w] > 0 /\ out' = [out EXCEPT ![w] = @ - 1] /\ UNCHANGED <<cnt, pc, lock, done>>
Step(t) == Begin(t) \/ Check(t) \/ Issue(t) \/ End(t)
Next == Finish \/ \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : SF_vars(Step(t))
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Bounded == Sum(out, Windows) <= Limit
AllIssued == <>(done = MaxOps)
=============================================================================
