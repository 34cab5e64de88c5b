---------------------------- MODULE UserMessages ----------------------------
(***************************************************************************)
(* Message programs that cannot deadlock whatever the buffering: a global  *)
(* order of messages; a receive names its source or takes any.             *)
(* prog is a sequence of <<from, to, tag, length, any>>; each process does *)
(* its part in this order.  any = 1 only where one sender uses the tag.    *)
(***************************************************************************)
EXTENDS Emit
CONSTANTS Depth, N, Tags, Lens
VARIABLES prog
Init == prog = <<>>
Next == \E a, b \in 0..(N - 1), t \in Tags, n \in Lens, any \in {0, 1} :
          /\ a # b /\ Len(prog) < Depth
          /\ \A i \in DOMAIN prog : prog[i][2] = b /\ prog[i][3] = t /\ (any = 1 \/ prog[i][5] = 1) => prog[i][1] = a
          /\ (prog = <<>> => a = 0)
          /\ prog' = Append(prog, <<a, b, t, n, any>>)
Spec == Init /\ [][Next]_prog
Emitted == Len(prog) = Depth => Out(prog)
=============================================================================
