----------------------------- MODULE RmaMapping -----------------------------
(***************************************************************************)
(* How ARMCI-MPI builds its one-sided operations from MPI-3 passive-target *)
(* RMA, on a transport with the freedom the MPI standard gives it: an      *)
(* operation reads its origin buffer at any time before local completion   *)
(* and takes effect at the target at any time before a flush.              *)
(*                                                                         *)
(* Two origins (0, 1) operate on the cells of process 2.  Every step of    *)
(* this design is at the same time a step of the abstract memory ArmciMem; *)
(* when ArmciMem does not allow it, `bad' becomes TRUE.  So the invariant  *)
(* Sound says that the design refines ArmciMem: transfers are exact, local *)
(* and remote completion, location consistency, atomicity of accumulate    *)
(* and read-modify-write.                                                  *)
(*                                                                         *)
(* Design parameters:                                                      *)
(*   Fifo       the transport keeps the order of one origin's operations   *)
(*   Replace    puts are MPI_Accumulate(MPI_REPLACE), gets are             *)
(*              MPI_Get_accumulate(MPI_NO_OP) (ARMCI_RMA_ATOMICITY)        *)
(*   FullFlush  blocking stores end with flush, not flush_local            *)
(*              (ARMCI_NO_FLUSH_LOCAL)                                     *)
(*   LC         ArmciMem's location consistency is required                *)
(* and the deviations that make the properties fail:                       *)
(*   Skip \in {"", "flush_local", "fence", "get_flush", "wait", "split"}   *)
(***************************************************************************)
EXTENDS ArmciMem
CONSTANTS Fifo, Replace, FullFlush, LC, Skip, Cmds, K, NCells

VARIABLES net,   \* origin -> sequence of MPI operations under way: [k, c, id, rd, v]
          pc,    \* origin -> <<>> or the call in progress [k, id]
          buf,   \* id -> content of the origin / result buffer
          cnt,   \* origin -> commands so far
          nbs,   \* origin -> nonblocking operations not waited for
          bad
dvars == <<net, pc, buf, cnt, nbs, bad>>
vars == <<memvars, dvars>>
O == {0, 1}
Target == 2
M1 == 0 - 1

Init ==
        /\ alloc = (0 :> [mem |-> <<0, 1, 2>>, n |-> (0 :> 0 @@ 1 :> 0 @@ 2 :> NCells), cs |-> 4, base |-> <<M1, M1, 0>>, freed |-> {}])
        /\ hist = <<>> /\ pend = <<>> /\ ops = <<>> /\ lc = LC /\ fset = <<>>
        /\ net = [o \in O |-> <<>>] /\ pc = [o \in O |-> <<>>] /\ buf = <<>> /\ cnt = [o \in O |-> 0] /\ nbs = [o \in O |-> {}] /\ bad = FALSE

\* the step A of the abstract memory happens, or the design is wrong
Mon(A) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED memvars

Class(k) == IF k \in {"acc", "fadd"} \/ (Replace /\ k \in {"put", "get"}) THEN "acc" ELSE "raw"
Kind(cmd) == CASE cmd \in {"put", "nbput"} -> "put" [] cmd \in {"get", "nbget"} -> "get" [] cmd \in {"acc", "nbacc"} -> "acc" [] OTHER -> cmd
NB(cmd) == cmd \in {"nbput", "nbget", "nbacc"}

Command(o, cmd, c) ==
  LET id == o * 10 + cnt[o] + 1
      k == Kind(cmd)
      v == IF k = "put" THEN id * 100 ELSE IF k = "get" THEN M1 ELSE id
  IN /\ pc[o] = <<>> /\ cnt[o] < K /\ bad = FALSE
     /\ cnt' = [cnt EXCEPT ![o] = @ + 1]
     /\ CASE k \in {"put", "get", "acc"} ->
               /\ Mon(Issue(id, o, Target, k, IF NB(cmd) THEN 1 ELSE 0, M1, << <<0, c, 0>> >>, <<v>>, <<>>, M1, "i", <<1, 1, 0, 1>>, <<>>, 0))
               /\ net' = [net EXCEPT ![o] = Append(@, [k |-> k, c |-> c, id |-> id, rd |-> FALSE, v |-> 0])]
               /\ buf' = (id :> v) @@ buf
               /\ pc' = [pc EXCEPT ![o] = [k |-> cmd, id |-> id]]
               /\ UNCHANGED nbs
          [] k = "fadd" ->
               /\ Mon(RmwCall(id, o, Target, "fadd", 0, c, v, M1, 0, 0))
               /\ net' = [net EXCEPT ![o] = Append(@, [k |-> k, c |-> c, id |-> id, rd |-> FALSE, v |-> 0])]
               /\ buf' = (id :> v) @@ buf
               /\ pc' = [pc EXCEPT ![o] = [k |-> cmd, id |-> id]]
               /\ UNCHANGED nbs
          [] k = "wait" -> nbs[o] # {} /\ c = 0 /\ pc' = [pc EXCEPT ![o] = [k |-> cmd, id |-> 0]] /\ UNCHANGED <<net, buf, nbs, bad, memvars>>
          [] k = "fence" -> c = 0 /\ Mon(FenceCall(o, 0, Target)) /\ pc' = [pc EXCEPT ![o] = [k |-> cmd, id |-> 0]] /\ UNCHANGED <<net, buf, nbs>>

\* the transport
Reads(o, i) == /\ ~net[o][i].rd /\ net[o][i].k # "get"
               /\ net' = [net EXCEPT ![o][i].rd = TRUE, ![o][i].v = buf[net[o][i].id]]
               /\ UNCHANGED <<pc, buf, cnt, nbs, bad, memvars>>
MayGo(o, i) == \A j \in 1..(i - 1) : ~Fifo /\ (net[o][j].c # net[o][i].c \/ Class(net[o][j].k) = "raw" \/ Class(net[o][i].k) = "raw")
\* Skip = "split": an accumulate that is a read and a later write
Deliver(o, i) ==
  LET m == net[o][i] k == Key(0, Target, m.c) cur == Cur(k) new == IF m.k = "put" THEN m.v ELSE IF Skip = "split" THEN m.v ELSE cur + m.v IN
  /\ MayGo(o, i) /\ (m.rd \/ m.k = "get")
  /\ net' = [net EXCEPT ![o] = RemoveAt(@, i)]
  /\ IF m.k = "get" THEN buf' = [buf EXCEPT ![m.id] = cur] /\ UNCHANGED <<bad, memvars>>
     ELSE /\ Mon(MemChange(0, Target, m.c, new))
          /\ buf' = IF m.k = "fadd" THEN [buf EXCEPT ![m.id] = cur] ELSE buf
  /\ UNCHANGED <<pc, cnt, nbs>>

Net(o) == {net[o][i].id : i \in DOMAIN net[o]}
AllRead(o) == \A i \in DOMAIN net[o] : net[o][i].rd
Junk == 7
Finish(o) ==
  LET x == pc[o] k == Kind(x.k) IN
  /\ x # <<>> /\ bad = FALSE
  /\ pc' = [pc EXCEPT ![o] = <<>>]
  /\ UNCHANGED <<net, cnt>>
  /\ CASE NB(x.k) -> Mon(Issued(x.id, o)) /\ nbs' = [nbs EXCEPT ![o] = @ \cup {x.id}] /\ UNCHANGED buf
       [] k \in {"put", "acc"} /\ ~NB(x.k) ->
            /\ Skip = "flush_local" \/ IF FullFlush THEN net[o] = <<>> ELSE AllRead(o)
            /\ Mon(Return(x.id, o, <<buf[x.id]>>))
            /\ buf' = [buf EXCEPT ![x.id] = Junk]                \* the caller uses its buffer again
            /\ UNCHANGED nbs
       [] k = "get" /\ ~NB(x.k) ->
            /\ Skip = "get_flush" \/ net[o] = <<>>
            /\ Mon(Return(x.id, o, <<buf[x.id]>>)) /\ UNCHANGED <<buf, nbs>>
       [] k = "fadd" -> x.id \notin Net(o) /\ Mon(RmwReturn(x.id, o, buf[x.id])) /\ UNCHANGED <<buf, nbs>>
       [] k = "wait" ->
            /\ Skip = "wait" \/ \A i \in DOMAIN net[o] : net[o][i].id \in nbs[o] => net[o][i].rd
            /\ Mon(WaitAll(o, nbs[o], [id \in nbs[o] |-> <<buf[id]>>]))
            /\ buf' = [id \in DOMAIN buf |-> IF id \in nbs[o] THEN Junk ELSE buf[id]]
            /\ nbs' = [nbs EXCEPT ![o] = {}]
       [] k = "fence" ->
            /\ Skip = "fence" \/ net[o] = <<>>
            /\ Mon(FenceReturn(o, 0, Target)) /\ UNCHANGED <<buf, nbs>>

Next == \E o \in O : \/ \E cmd \in Cmds, c \in 0..(NCells - 1) : Command(o, cmd, c)
                     \/ \E i \in DOMAIN net[o] : Reads(o, i) \/ Deliver(o, i)
                     \/ Finish(o)
Spec == Init /\ [][Next]_vars
Sound == ~bad
\* accumulates and fetch-and-adds are never lost: with nothing else, a cell is the sum of what was delivered
AccSum == (Cmds \subseteq {"acc", "nbacc", "fadd", "wait", "fence", "get"}) =>
   \A c \in 0..(NCells - 1) : LET s == Hist(hist, Key(0, Target, c)) IN \A i \in 2..Len(s) : s[i] > s[i - 1]
\* nothing is left over once everything is done and fenced
Clean == ((\A o \in O : net[o] = <<>> /\ pc[o] = <<>> /\ nbs[o] = {}) /\ ~bad) =>
         \A id \in DOMAIN ops : ops[id].kind = "get" \/ TookEffect(id)
=============================================================================
