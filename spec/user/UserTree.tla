------------------------------ MODULE UserTree ------------------------------
(***************************************************************************)
(* Insertion sequences for the conflict tree: every order of K disjoint    *)
(* intervals (all shapes and rotations of the tree), or every sequence of  *)
(* Depth arbitrary intervals over 0..U (all ways of meeting).              *)
(***************************************************************************)
EXTENDS Emit
CONSTANTS Depth, U, Distinct
VARIABLES prog
Ivs == IF Distinct THEN {<<3 * x, 3 * x + 1>> : x \in 0..U} ELSE {<<a, b>> \in (0..U) \X (0..U) : a <= b}
Init == prog = <<>>
Next == \E iv \in Ivs : /\ Len(prog) < Depth /\ (Distinct => \A i \in DOMAIN prog : prog[i] # iv)
                        /\ prog' = Append(prog, iv)
Spec == Init /\ [][Next]_prog
Emitted == Len(prog) = Depth => Out(prog)
=============================================================================
