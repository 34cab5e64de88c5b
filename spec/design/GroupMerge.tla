----------------------------- MODULE GroupMerge -----------------------------
(***************************************************************************)
(* Noncollective creation of groups (groups.c): the members of a sorted    *)
(* list merge pairs of adjacent blocks of 1, 2, 4, ... members until one   *)
(* communicator is left.  Every process creates the groups of GroupLists   *)
(* it is a member of, in the same order; nobody else takes part.           *)
(*                                                                         *)
(* Checked for every pair of groups: a process that is done has exactly    *)
(* the members of the list in the order of the list; an intercommunicator  *)
(* only ever joins blocks of the same creation; everyone finishes.         *)
(* Deviations: Partner = "self" (the odd block names its own leader),      *)
(* High = FALSE (both blocks ask for the low position, so the order of     *)
(* the merge is arbitrary), Reverse (a process creates the groups in the   *)
(* opposite order), Last (a block without a full partner is skipped too).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Partner, High, Reverse, Last

Proc == 0..(N - 1)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

VARIABLES lists,   \* the groups to be created, chosen at the start
          k,       \* process -> group it is creating (index), 3: finished
          ms,      \* process -> merge_size
          comm,    \* process -> communicator: <<creation, members>>
          done     \* <<process, group>> -> resulting members
vars == <<lists, k, ms, comm, done>>

In(p, i) == \E j \in DOMAIN lists[i] : lists[i][j] = p
Me(p, i) == (CHOOSE j \in DOMAIN lists[i] : lists[i][j] = p) - 1
Order(p) == IF Reverse /\ p = 0 THEN <<2, 1>> ELSE <<1, 2>>
Cur(p) == Order(p)[k[p]]
Active(p) == k[p] <= 2 /\ In(p, Cur(p))

Init == /\ lists \in {<<Sorted(A), Sorted(B)>> : A \in SUBSET Proc \ {{}}, B \in SUBSET Proc \ {{}}}
        /\ k = [p \in Proc |-> 1] /\ ms = [p \in Proc |-> 1]
        /\ comm = [p \in Proc |-> <<0, <<p>>>>]
        /\ done = <<>>

Skip(p) == /\ k[p] <= 2 /\ ~In(p, Cur(p)) /\ k' = [k EXCEPT ![p] = @ + 1] /\ UNCHANGED <<lists, ms, comm, done>>
Finish(p) == /\ Active(p) /\ ms[p] >= Len(lists[Cur(p)])
             /\ done' = (<<p, Cur(p)>> :> comm[p][2]) @@ done
             /\ k' = [k EXCEPT ![p] = @ + 1] /\ ms' = [ms EXCEPT ![p] = 1] /\ comm' = [comm EXCEPT ![p] = <<0, <<p>>>>]
             /\ UNCHANGED lists
Busy(p) == Active(p) /\ ms[p] < Len(lists[Cur(p)])
Gid(p) == Me(p, Cur(p)) \div ms[p]
Alone(p) == /\ Gid(p) % 2 = 0
            /\ IF Last THEN (Gid(p) + 2) * ms[p] > Len(lists[Cur(p)]) ELSE (Gid(p) + 1) * ms[p] >= Len(lists[Cur(p)])
Continue(p) == Busy(p) /\ Alone(p) /\ ms' = [ms EXCEPT ![p] = @ * 2] /\ UNCHANGED <<lists, k, comm, done>>
\* rank in the parent of the leader of the other block
Remote(p) == IF Gid(p) % 2 = 0 THEN lists[Cur(p)][(Gid(p) + 1) * ms[p] + 1]
             ELSE IF Partner = "self" THEN lists[Cur(p)][Gid(p) * ms[p] + 1] ELSE lists[Cur(p)][(Gid(p) - 1) * ms[p] + 1]
At(p) == Busy(p) /\ ~Alone(p)                       \* inside MPI_Intercomm_create
Range(s) == {s[i] : i \in DOMAIN s}
\* the intercommunicator comes into being when all of both communicators are there and the leaders name each other
Join(a, b) ==
  LET A == comm[a] B == comm[b] IN
  /\ At(a) /\ At(b) /\ a # b /\ A[2][1] = a /\ B[2][1] = b /\ Range(A[2]) \cap Range(B[2]) = {}
  /\ Remote(a) = b /\ Remote(b) = a
  /\ \A p \in Range(A[2]) : At(p) /\ comm[p] = A
  /\ \A p \in Range(B[2]) : At(p) /\ comm[p] = B
  /\ Gid(a) % 2 = 0 \/ ~High
  /\ LET m == <<Cur(a), A[2] \o B[2]>> all == Range(m[2]) IN
     /\ comm' = [p \in Proc |-> IF p \in all THEN m ELSE comm[p]]
     /\ ms' = [p \in Proc |-> IF p \in all THEN ms[p] * 2 ELSE ms[p]]
  /\ UNCHANGED <<lists, k, done>>

Next == (\E p \in Proc : Skip(p) \/ Finish(p) \/ Continue(p)) \/ (\E a, b \in Proc : Join(a, b))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == \A x \in DOMAIN done : done[x] = lists[x[2]]
SameCreation == \A a, b \in Proc : ENABLED Join(a, b) => Cur(a) = Cur(b) /\ ms[a] = ms[b]
Finished == \A p \in Proc : k[p] = 3
Stuck == (~ENABLED Next) => Finished
Terminates == <>Finished
=============================================================================
