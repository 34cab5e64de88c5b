--------------------------- MODULE HandleRequests ---------------------------
(***************************************************************************)
(* Nonblocking handles (onesided_nb.c, gmr.c): a handle keeps the requests *)
(* of the operations issued on it, first one in place, then in an array    *)
(* that grows; Wait completes all of them, Test looks whether all are      *)
(* complete and then forgets them; operations without a handle leave no    *)
(* request and are only completed by WaitProc, WaitAll or a fence.         *)
(*                                                                         *)
(* Checked: after Wait(h) or a successful Test(h) every operation issued   *)
(* on h is locally complete and h is empty; a Test is successful once all  *)
(* are complete; no request is completed twice; after WaitAll everything   *)
(* is locally complete and the handles stay usable.                        *)
(* Deviations: Add = "replace" (a second operation replaces the request),  *)
(* "grow" (the array replaces what was kept in place), WaitWhat = "last",  *)
(* TestWhat = "any", Keep (the requests stay in the handle after Wait),    *)
(* EmptyTest (a Test of an empty handle never succeeds).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Handles, MaxOps, Add, WaitWhat, TestWhat, Keep, EmptyTest
VARIABLES issued,   \* operation -> handle (0: none)
          arrived,  \* operations the network has completed
          reqs,     \* handle -> [one: operation or 0, arr: sequence of operations]
          dead,     \* requests already completed by the library
          last,     \* what the last call promised: <<kind, handle, result>>
          err
vars == <<issued, arrived, reqs, dead, last, err>>
H == 1..Handles
Init == issued = <<>> /\ arrived = {} /\ reqs = [h \in H |-> [one |-> 0, arr |-> <<>>]] /\ dead = {} /\ last = <<"-", 0, 0>> /\ err = FALSE
Range(s) == {s[i] : i \in DOMAIN s}
Of(h) == Range(reqs[h].arr) \cup ({reqs[h].one} \ {0})
Seq1(h) == IF reqs[h].one # 0 THEN <<reqs[h].one>> ELSE reqs[h].arr
AddTo(h, o) ==
  LET R == reqs[h] IN
  CASE R.one = 0 /\ R.arr = <<>> -> [one |-> o, arr |-> <<>>]
    [] R.one # 0 /\ Add = "replace" -> [one |-> o, arr |-> <<>>]
    [] R.one # 0 /\ Add = "grow" -> [one |-> 0, arr |-> <<o>>]
    [] R.one # 0 -> [one |-> 0, arr |-> <<R.one, o>>]
    [] OTHER -> [one |-> 0, arr |-> Append(R.arr, o)]
Issue(h) == /\ Len(issued) < MaxOps
            /\ issued' = Append(issued, h)
            /\ reqs' = IF h = 0 THEN reqs ELSE [reqs EXCEPT ![h] = AddTo(h, Len(issued) + 1)]
            /\ last' = <<"-", 0, 0>> /\ UNCHANGED <<arrived, dead, err>>
Arrive == \E o \in DOMAIN issued \ arrived : arrived' = arrived \cup {o} /\ last' = <<"-", 0, 0>> /\ UNCHANGED <<issued, reqs, dead, err>>
Waits(h) == IF Of(h) = {} THEN {} ELSE IF WaitWhat = "last" THEN {Seq1(h)[Len(Seq1(h))]} ELSE Of(h)
Wait(h) == /\ Waits(h) \subseteq arrived
           /\ err' = (err \/ Waits(h) \cap dead # {})
           /\ dead' = dead \cup Waits(h)
           /\ reqs' = IF Keep THEN reqs ELSE [reqs EXCEPT ![h] = [one |-> 0, arr |-> <<>>]]
           /\ last' = <<"wait", h, 0>> /\ UNCHANGED <<issued, arrived>>
Test(h) == LET ok == CASE Of(h) = {} -> ~EmptyTest [] TestWhat = "any" -> Of(h) \cap arrived # {} [] OTHER -> Of(h) \subseteq arrived IN
           /\ err' = (err \/ (Of(h) \cap dead # {}))
           /\ dead' = IF ok THEN dead \cup Of(h) ELSE dead
           /\ reqs' = IF ok /\ ~Keep THEN [reqs EXCEPT ![h] = [one |-> 0, arr |-> <<>>]] ELSE reqs
           /\ last' = <<"test", h, IF ok THEN 0 ELSE 1>> /\ UNCHANGED <<issued, arrived>>
WaitAll == /\ DOMAIN issued \subseteq arrived
           /\ last' = <<"all", 0, 0>> /\ UNCHANGED <<issued, arrived, reqs, dead, err>>
Next == Arrive \/ WaitAll \/ (\E h \in {0} \cup H : Issue(h)) \/ (\E h \in H : Wait(h) \/ Test(h))
Spec == Init /\ [][Next]_vars
On(h) == {o \in DOMAIN issued : issued[o] = h}
WaitCompletes == (last[1] = "wait" \/ (last[1] = "test" /\ last[3] = 0)) => On(last[2]) \subseteq arrived /\ Of(last[2]) = {}
TestSucceeds == (last[1] = "test" /\ last[3] = 1) => ~(On(last[2]) \subseteq arrived)
AllCompletes == last[1] = "all" => DOMAIN issued \subseteq arrived
NotTwice == ~err
=============================================================================
