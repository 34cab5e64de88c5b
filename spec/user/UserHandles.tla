---------------------------- MODULE UserHandles ----------------------------
(***************************************************************************)
(* What a process may do with nonblocking operations and handles.  TLC     *)
(* enumerates every program of Depth calls; each is run on the library and *)
(* its trace is checked against ArmciMem.  Handle 0 is the implicit one    *)
(* (NULL), 1..Handles are explicit, the last of them is used for           *)
(* aggregation.  st[h] = operations issued on h and not known complete.    *)
(***************************************************************************)
EXTENDS Emit
CONSTANTS Depth, Handles, Ops
VARIABLES prog, st, known
vars == <<prog, st, known>>
H == 0..Handles
Add(c) == Len(prog) < Depth /\ prog' = Append(prog, c)
Init == prog = <<>> /\ st = [h \in H |-> 0] /\ known = {}
Issue(op, h, t) == Add(<<"nb", op, h, t>>) /\ st' = [st EXCEPT ![h] = @ + 1] /\ known' = known \cup {h}
Wait(h) == h \in known \ {0} /\ Add(<<"wait", h>>) /\ st' = [st EXCEPT ![h] = 0] /\ UNCHANGED known
\* a test may or may not succeed; the operations stay possibly outstanding
Test(h) == h \in known \ {0} /\ Add(<<"test", h>>) /\ UNCHANGED <<st, known>>
WaitProc(t) == known # {} /\ Add(<<"waitproc", t>>) /\ UNCHANGED <<st, known>>
WaitAll == known # {} /\ Add(<<"waitall">>) /\ st' = [h \in H |-> 0] /\ UNCHANGED known
Fence(t) == known # {} /\ Add(<<"fence", t>>) /\ UNCHANGED <<st, known>>
Blocking(op, t) == Add(<<"bl", op, t>>) /\ UNCHANGED <<st, known>>
\* aggregation may be switched while nothing is outstanding
Aggregate(h) == h = Handles /\ st[h] = 0 /\ Add(<<"agg", h>>) /\ UNCHANGED st /\ known' = known \cup {h}
Next == \/ \E op \in Ops, h \in H, t \in {0, 1} : (t = 1 \/ op = "put") /\ Issue(op, h, t)
        \/ \E h \in H : Wait(h) \/ Test(h) \/ Aggregate(h)
        \/ WaitProc(1) \/ WaitAll \/ Fence(1) \/ Blocking("put", 1)
Spec == Init /\ [][Next]_vars
\* only programs with at least one nonblocking operation and one way of completing it are worth running
Worth == /\ \E i \in 1..Len(prog) : prog[i][1] = "nb"
         /\ \E i, j \in 1..Len(prog) : i < j /\ prog[i][1] = "nb" /\ prog[j][1] \in {"wait", "test", "waitproc", "waitall"}
Emitted == Len(prog) = Depth /\ Worth => Out(prog)
=============================================================================
