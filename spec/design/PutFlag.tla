------------------------------ MODULE PutFlag -------------------------------
(***************************************************************************)
(* ARMCI_Put_flag: put of the data, fence of the target, put of the flag;  *)
(* the receiver polls the flag in its own memory and then reads the data.  *)
(* Two rounds, the second after the receiver's answer (its own put_flag    *)
(* back), so a flag of an earlier round must not be mistaken.              *)
(*                                                                         *)
(* Checked: a receiver that has seen the flag of round r reads the data of *)
(* round r.  Deviations: Fence = "none" (rely on the order of issue),      *)
(* "other" (only the window of the flag is flushed), "local".              *)
(* Net = "weak": any order; "fifo": one origin's operations on one target  *)
(* and window arrive in order.  With "fifo" and one window Fence = "none"  *)
(* is also correct: that is why tests on such a transport do not see it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Fence, Net, OneWindow, Cells, Rounds
P == {0, 1}
VARIABLES mem,   \* <<process, cell>> -> value; cell 0 is the flag
          net,   \* sequence of <<target, window, cell, value>> in issue order
          pc, r, got
vars == <<mem, net, pc, r, got>>
WinOf(c) == IF c = 0 /\ ~OneWindow THEN 2 ELSE 1
Init == /\ mem = [x \in P \X (0..Cells) |-> 0] /\ net = <<>>
        /\ pc = [p \in P |-> IF p = 0 THEN "put" ELSE "poll"] /\ r = [p \in P |-> 1] /\ got = {}
Put(p) == /\ pc[p] = "put"
          /\ net' = net \o [c \in 1..Cells |-> <<1 - p, WinOf(c), c, r[p]>>]
          /\ pc' = [pc EXCEPT ![p] = "fence"] /\ UNCHANGED <<mem, r, got>>
To(t, w) == \A i \in DOMAIN net : ~(net[i][1] = t /\ net[i][2] = w)
DoFence(p) == /\ pc[p] = "fence"
              /\ CASE Fence = "full" -> To(1 - p, 1) /\ To(1 - p, 2)
                   [] Fence = "other" -> To(1 - p, WinOf(0))
                   [] OTHER -> TRUE
              /\ pc' = [pc EXCEPT ![p] = "flag"] /\ UNCHANGED <<mem, net, r, got>>
Flag(p) == /\ pc[p] = "flag" /\ net' = Append(net, <<1 - p, WinOf(0), 0, r[p]>>)
           /\ pc' = [pc EXCEPT ![p] = IF p = 0 THEN "poll" ELSE IF r[p] < Rounds THEN "poll" ELSE "end"]
           /\ r' = IF p = 1 THEN [r EXCEPT ![p] = @ + 1] ELSE r
           /\ UNCHANGED <<mem, got>>
Poll(p) == /\ pc[p] = "poll" /\ mem[<<p, 0>>] = r[p]
           /\ got' = got \cup {<<p, r[p], [c \in 1..Cells |-> mem[<<p, c>>]]>>}
           /\ IF p = 1 THEN pc' = [pc EXCEPT ![p] = "put"] /\ UNCHANGED r
              ELSE /\ pc' = [pc EXCEPT ![p] = IF r[p] < Rounds THEN "put" ELSE "end"] /\ r' = [r EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<mem, net>>
Deliver == \E i \in DOMAIN net :
  /\ Net = "weak" \/ \A j \in 1..(i - 1) : net[j][1] # net[i][1] \/ net[j][2] # net[i][2]
  /\ mem' = [mem EXCEPT ![<<net[i][1], net[i][3]>>] = net[i][4]]
  /\ net' = SubSeq(net, 1, i - 1) \o SubSeq(net, i + 1, Len(net)) /\ UNCHANGED <<pc, r, got>>
Next == Deliver \/ \E p \in P : Put(p) \/ DoFence(p) \/ Flag(p) \/ Poll(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
DataWithFlag == \A g \in got : \A c \in 1..Cells : g[3][c] = g[2]
Answered == <>(pc[0] = "end")
=============================================================================
