------------------------------ MODULE UserCalls ------------------------------
(***************************************************************************)
(* Products of the arguments of single calls.                              *)
(***************************************************************************)
EXTENDS Emit, FiniteSets
CONSTANT Family
VARIABLE c
FloatOps == {"+", "*", "max", "min", "absmax", "absmin"}
IntOps == FloatOps \cup {"or", "land", "lor", "band", "bor"}
Types == {"i", "l", "q", "f", "d"}
Ints == {"i", "l", "q"}
\* <<api, op, type, scope, length>>: t = armci_msg_gop by type, g = group, s = scope, x = group with scope
Gop == {<<api, op, ty, s, n>> \in {"t", "g", "s", "x"} \X IntOps \X Types \X {"a", "m", "n"} \X {0, 1, 3} :
          /\ ty \in Ints \/ op \in FloatOps
          /\ api \in {"t", "g"} => s = "a"}
\* <<api, scope, root, length>>
Bcast == {<<api, s, r, n>> \in {"b", "r", "s", "g"} \X {"a", "m", "n"} \X (0..2) \X {0, 1, 4} :
          /\ api \in {"b", "r"} => s = "a" /\ (api = "g" => s # "n")
          /\ s = "n" => r = 0}
\* <<api, scope, op, type, who contributes>>
Sel == {<<api, s, op, ty, m>> \in {"s", "x"} \X {"a", "m"} \X {"min", "max"} \X Types \X (SUBSET (0..2) \ {{}}) : api = "x" => s = "a"}
\* <<operation, type or accumulate type, counts, target stride slack, local stride slack>>: strided transfers with up to three levels
Counts == UNION {[1..k -> 1..3] : k \in 1..3} \cup {<<2, 2, 2, 2>>, <<1, 1, 1, 1>>, <<1, 2, 1, 2>>, <<2, 1, 1, 3>>}
Shape == {"put", "get", "acc"} \X Counts \X {0, 1} \X {0, 2} \X {0, 1}
\* <<accumulate type, scale index, length, nonblocking>>
Acc == {"i", "l", "f", "d", "c", "z"} \X (0..3) \X {1, 2, 5} \X {0, 1} \X {"", "s", "v"} \X {0, 1}
\* <<operation, form, first cell relative to the end or the start, cells>>: transfers that leave the slice by one or more cells, or just do not
Bound == {<<op, f, e, o, n, nb>> \in {"put", "get", "acc", "rmw", "val"} \X {"", "s", "v"} \X {"lo", "hi"} \X (-2..1) \X (1..3) \X {0, 1} :
            /\ (op \in {"rmw", "val"} => f = "" /\ n = 1 /\ nb = 0)}
Rmw == {"fadd", "swap"} \X {"i", "o"} \X (0..2) \X (0..2) \X {0, 1}
Pack == {0, 1} \X Counts \X {0, 1, 2}
S == CASE Family = "gop" -> Gop [] Family = "bcast" -> Bcast [] Family = "sel" -> Sel [] Family = "shape" -> Shape [] Family = "acc" -> Acc
       [] Family = "bound" -> Bound [] Family = "rmw" -> Rmw [] Family = "pack" -> Pack
Init == c \in S
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Emitted == Out(c)
=============================================================================
