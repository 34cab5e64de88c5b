----------------------------- MODULE RegionList -----------------------------
(***************************************************************************)
(* The list of allocations (gmr.c): every process keeps the allocations of *)
(* its groups in a list; an address is looked up by the slice of the       *)
(* target process that contains it.  Address spaces are separate, so the   *)
(* same address belongs to different allocations on different processes,   *)
(* and addresses are used again after a free.  Freeing is collective: the  *)
(* members agree on one of them that has memory, and look the allocation   *)
(* up with that one's address.                                             *)
(*                                                                         *)
(* Checked: all members unlink the allocation they mean; a lookup of any   *)
(* address of a live slice finds its allocation.                           *)
(* Deviations: Lookup = "anyproc" (slices of all processes are searched),  *)
(* "closed" (the end of a slice belongs to it); Agree = "own" (every       *)
(* process looks its own pointer up), Unlink = FALSE (the entry stays).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Addr, MaxSize, MaxAlloc, Lookup, Agree, Unlink
Proc == 0..(N - 1)
Null == 0 - 1
VARIABLES heap,   \* id -> (process -> <<base, size>>) of live allocations; base Null and size 0: empty slice
          list,   \* process -> sequence of <<id, slices>>
          next, err
vars == <<heap, list, next, err>>
Init == heap = <<>> /\ list = [p \in Proc |-> <<>>] /\ next = 1 /\ err = "ok"
Free(p, b, s) == \A i \in DOMAIN heap : LET h == heap[i][p] IN h[1] = Null \/ b + s <= h[1] \/ h[1] + h[2] <= b
Place(p, s) == IF s = 0 THEN {<<Null, 0>>} ELSE {<<b, s>> : b \in {b \in 0..(Addr - s) : Free(p, b, s)}}
Slices == [Proc -> {<<Null, 0>>} \cup ((0..(Addr - 1)) \X (1..MaxSize))]
Malloc == /\ next <= MaxAlloc
          /\ \E sl \in Slices :
               /\ \A p \in Proc : sl[p] \in Place(p, sl[p][2])
               /\ \E p \in Proc : sl[p][2] > 0
               /\ heap' = (next :> sl) @@ heap
               /\ list' = [p \in Proc |-> Append(list[p], <<next, sl>>)]
          /\ next' = next + 1 /\ UNCHANGED err
Hit(e, a, t) ==
  LET in(p) == e[2][p][1] # Null /\ a >= e[2][p][1] /\ (IF Lookup = "closed" THEN a <= e[2][p][1] + e[2][p][2] ELSE a < e[2][p][1] + e[2][p][2]) IN
  IF Lookup = "anyproc" THEN \E p \in Proc : in(p) ELSE in(t)
\* the first one in the list, 0 if there is none
Find(p, a, t) == LET S == {i \in DOMAIN list[p] : Hit(list[p][i], a, t)} IN
                 IF S = {} THEN 0 ELSE list[p][CHOOSE i \in S : \A j \in S : i <= j][1]
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Destroy(id) ==
  LET sl == heap[id] root == Max({p \in Proc : sl[p][1] # Null})
      f(p) == IF Agree = "own" THEN (IF sl[p][1] = Null THEN 0 ELSE Find(p, sl[p][1], p)) ELSE Find(p, sl[root][1], root) IN
  /\ err' = IF \A p \in Proc : f(p) = id THEN "ok" ELSE "wrong allocation"
  /\ heap' = [i \in DOMAIN heap \ {id} |-> heap[i]]
  /\ list' = IF Unlink THEN [p \in Proc |-> SelectSeq(list[p], LAMBDA e : e[1] # f(p))] ELSE list
  /\ UNCHANGED next
Next == err = "ok" /\ (Malloc \/ \E id \in DOMAIN heap : Destroy(id))
Spec == Init /\ [][Next]_vars
RightAllocation == err = "ok"
LookupRight == \A id \in DOMAIN heap : \A p, t \in Proc : \A a \in 0..(Addr - 1) :
  (heap[id][t][1] # Null /\ a >= heap[id][t][1] /\ a < heap[id][t][1] + heap[id][t][2]) => Find(p, a, t) = id
SameLists == \A p, q \in Proc : list[p] = list[q]
=============================================================================
