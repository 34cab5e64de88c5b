------------------------------ MODULE UserTune ------------------------------
(***************************************************************************)
(* Environments: all choices of values for at most Most of the variables   *)
(* that decide how windows are made, the others not set.  A program is the *)
(* sequence of <<variable, value>>; each makes allocations of every pair   *)
(* of the sizes 0, 1, 128, 129 on the world, on a group, and mutexes.      *)
(***************************************************************************)
EXTENDS Emit
CONSTANTS Most
VARIABLES env, next
vars == <<env, next>>
Flag == {"0", "1", "Yes", "off", ""}
Values == <<
  <<"ARMCI_ACCUMULATE_GRANULARITY", {"0", "1", "128", "129", "4096", "-1", "2147483647"}>>,
  <<"ARMCI_RMA_ORDERING", {"", "none", "rar,raw,war,waw", "raw", "waw,rar"}>>,
  <<"ARMCI_USE_WIN_ALLOCATE", Flag>>, <<"ARMCI_USE_ALLOC_SHM", Flag>>, <<"ARMCI_DISABLE_SHM_ACC", Flag>>,
  <<"ARMCI_USE_SAME_OP", Flag>>, <<"ARMCI_RMA_NOCHECK", Flag>>,
  <<"ARMCI_STRIDED_METHOD", {"IOV", "DIRECT"}>>, <<"ARMCI_IOV_METHOD", {"AUTO", "CONSRV", "BATCHED", "DIRECT"}>>,
  <<"ARMCI_RMA_ATOMICITY", {"0", "1"}>>, <<"ARMCI_SHR_BUF_METHOD", {"COPY", "NOGUARD"}>>, <<"ARMCI_NONCOLLECTIVE_GROUPS", {"0", "1"}>> >>
Init == env = <<>> /\ next = 1
Next == Len(env) < Most /\ \E i \in next..Len(Values) : \E v \in Values[i][2] : env' = Append(env, <<Values[i][1], v>>) /\ next' = i + 1
Spec == Init /\ [][Next]_vars
Emitted == Out(env)
=============================================================================
