------------------------------ MODULE ArmciTune ------------------------------
(***************************************************************************)
(* What the tuning variables promise about the library's dealings with MPI:*)
(* how the window behind an allocation is made and described, and how many *)
(* operations a vector operation starts between two flushes.  A variable   *)
(* that is not set reads "-".                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* a boolean variable is enabled by a value that begins with t, T, y, Y or 1, and by no other
On(v, default) == IF v = "-" THEN default ELSE v # "" /\ SubSeq(v, 1, 1) \in {"t", "T", "y", "Y", "1"}

\* -2: not set; negative values are ignored
Granularity(n, v) == IF n < 129 THEN 1 ELSE IF v < 0 THEN 1048576 ELSE v

\* h: the hints MPI was given, v: the variables, n: bytes of the caller's part, k: the call that made the window
AllocationWindow(k, n, h, v) ==
  /\ k = IF On(v.wa, TRUE) THEN "allocate" ELSE "create"
  /\ h.gran = Granularity(n, v.gran)
  /\ h.shm = IF On(v.shm, TRUE) THEN "true" ELSE "false"
  /\ IF On(v.dsa, FALSE) THEN h.dsa = "true" ELSE h.dsa \in {"-", "false"}
  /\ IF On(v.ops, FALSE) THEN h.ops = "same_op" ELSE h.ops \in {"-", "same_op_no_op"}
  /\ CASE v.ord = "-" -> h.ord \in {"-", "rar,raw,war,waw"}
       [] v.ord = ""  -> h.ord \in {"-", "rar,raw,war,waw"}
       [] OTHER       -> h.ord = v.ord
MutexWindow(n, h, v) == h.gran = Granularity(n, v.gran)
WindowOK(use, k, n, h, v) == CASE use = "ma" -> AllocationWindow(k, n, h, v)
                               [] use = "mc" -> MutexWindow(n, h, v)
                               [] OTHER -> TRUE
\* the epoch of an allocation is opened without lock checking unless ARMCI_RMA_NOCHECK is off
EpochOK(nocheck, v) == (nocheck = 1) = On(v, TRUE)
\* ARMCI_IOV_BATCHED_LIMIT: operations between two flushes of a blocking vector operation; 0 and negative values: no limit
BurstOK(burst, limit, method) == (method = "BATCHED" /\ limit > 0) => burst <= limit
\* with ARMCI_DEBUG_ALLOC memory is all zero when it is handed out (z = 1)
HandedOutOK(z, v) == On(v, FALSE) => z = 1
=============================================================================
