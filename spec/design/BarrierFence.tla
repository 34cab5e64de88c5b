---------------------------- MODULE BarrierFence ----------------------------
(***************************************************************************)
(* ARMCI_Barrier (util.c): complete all own stores in every allocation,    *)
(* then synchronize, then make the public and private copies of the own    *)
(* windows agree.  Fence, AllFence and Barrier on several allocations with *)
(* a network that delivers in any order.                                   *)
(*                                                                         *)
(* Checked: a process that has left the barrier reads (with a get or from  *)
(* its own memory) every store issued before the barrier by anyone; after  *)
(* a fence of t the caller's stores to t are there.                        *)
(* Deviations: Order = "late" (flush after the synchronization), Skip (a   *)
(* region in which the caller has no memory is not flushed), Sync = FALSE  *)
(* (no MPI_Win_sync: only matters for the separate memory model), Local    *)
(* (flush_local instead of flush).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Win, Order, Skip, DoSync, Local, Separate
Proc == 0..(N - 1)
\* process 0 has no memory in window 2
HasMem(p, w) == ~(p = 0 /\ w = 2)
VARIABLES pc,     \* process -> "run", "flush", "enter", "in", "sync", "out"
          fl,     \* process -> windows still to be flushed
          pub,    \* <<w, t>> -> set of stores <<origin, n>> in the public copy
          prv,    \* ... in the private copy
          net,    \* set of stores <<origin, w, t, n>> issued and not delivered
          sent,   \* process -> number of stores issued
          all     \* history: the stores issued before the issuer entered its barrier
vars == <<pc, fl, pub, prv, net, sent, all>>
Loc == {x \in (1..Win) \X Proc : HasMem(x[2], x[1])}
Init == /\ pc = [p \in Proc |-> "run"] /\ fl = [p \in Proc |-> {}]
        /\ pub = [x \in Loc |-> {}] /\ prv = [x \in Loc |-> {}] /\ net = {} /\ sent = [p \in Proc |-> 0] /\ all = {}
Store(p) == /\ pc[p] = "run" /\ sent[p] < 2
            /\ \E x \in Loc : LET s == <<p, x[1], x[2], sent[p]>> IN net' = net \cup {s} /\ all' = all \cup {s}
            /\ sent' = [sent EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pc, fl, pub, prv>>
Deliver == \E s \in net : LET x == <<s[2], s[3]>> v == <<s[1], s[4]>> IN
             /\ net' = net \ {s} /\ pub' = [pub EXCEPT ![x] = @ \cup {v}]
             /\ prv' = IF Separate THEN prv ELSE [prv EXCEPT ![x] = @ \cup {v}]
             /\ UNCHANGED <<pc, fl, sent, all>>
Wins(p) == IF Skip THEN {w \in 1..Win : HasMem(p, w)} ELSE 1..Win
Barrier(p) == /\ pc[p] = "run"
              /\ IF Order = "late" THEN pc' = [pc EXCEPT ![p] = "enter"] ELSE pc' = [pc EXCEPT ![p] = "flush"]
              /\ fl' = [fl EXCEPT ![p] = Wins(p)] /\ UNCHANGED <<pub, prv, net, sent, all>>
Flush(p) == /\ pc[p] = "flush" /\ fl[p] # {}
            /\ LET w == CHOOSE w \in fl[p] : \A v \in fl[p] : w <= v IN
               /\ Local \/ \A s \in net : ~(s[1] = p /\ s[2] = w)
               /\ fl' = [fl EXCEPT ![p] = @ \ {w}]
            /\ UNCHANGED <<pc, pub, prv, net, sent, all>>
Flushed(p) == /\ pc[p] = "flush" /\ fl[p] = {}
              /\ pc' = [pc EXCEPT ![p] = IF Order = "late" THEN "sync" ELSE "enter"] /\ UNCHANGED <<fl, pub, prv, net, sent, all>>
Enter(p) == pc[p] = "enter" /\ pc' = [pc EXCEPT ![p] = "in"] /\ UNCHANGED <<fl, pub, prv, net, sent, all>>
Leave(p) == /\ pc[p] = "in" /\ \A q \in Proc : pc[q] \notin {"run", "enter"} /\ (Order # "late" => pc[q] # "flush")
            /\ pc' = [pc EXCEPT ![p] = IF Order = "late" THEN "flush" ELSE "sync"] /\ UNCHANGED <<fl, pub, prv, net, sent, all>>
Sync(p) == /\ pc[p] = "sync" /\ pc' = [pc EXCEPT ![p] = "out"]
           /\ prv' = IF DoSync THEN [x \in Loc |-> IF x[2] = p THEN pub[x] ELSE prv[x]] ELSE prv
           /\ UNCHANGED <<fl, pub, net, sent, all>>
Next == Deliver \/ \E p \in Proc : Store(p) \/ Barrier(p) \/ Flush(p) \/ Flushed(p) \/ Enter(p) \/ Leave(p) \/ Sync(p)
Spec == Init /\ [][Next]_vars

\* a process outside the barrier sees everything, remotely and in its own memory
Visible == \A p \in Proc : pc[p] = "out" => \A s \in all :
             /\ <<s[1], s[4]>> \in pub[<<s[2], s[3]>>]
             /\ s[3] = p => <<s[1], s[4]>> \in prv[<<s[2], s[3]>>]
Together == \A p, q \in Proc : pc[p] = "out" => pc[q] \notin {"run"}
=============================================================================
