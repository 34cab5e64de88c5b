----------------------------- MODULE UserGroups -----------------------------
(***************************************************************************)
(* Trees of process groups: subgroups of a parent by member list, split    *)
(* and duplicate, a default group, and release in any order (children may  *)
(* outlive their parent).  Members are absolute ids; every member of the   *)
(* parent takes part in a creation.                                        *)
(***************************************************************************)
EXTENDS Emit, FiniteSets, SequencesExt
CONSTANTS Depth, N, Sorted, MaxG
VARIABLES prog, live, made   \* live: group number -> sequence of members
vars == <<prog, live, made>>
Add(c) == Len(prog) < Depth /\ prog' = Append(prog, c)
World == [i \in 1..N |-> i - 1]
Init == prog = <<>> /\ live = (0 :> World) /\ made = 0
Perms(s) == {p \in UNION {[1..k -> ToSet(s)] : k \in 1..Len(s)} : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
Rk(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
InOrder(par, p) == \A i \in 1..(Len(p) - 1) : Rk(par, p[i]) < Rk(par, p[i + 1])
New(m) == made' = made + 1 /\ live' = (made + 1 :> m) @@ live
Create(P, m) == made < MaxG /\ Add(<<"create", made + 1, P, [i \in DOMAIN m |-> Rk(live[P], m[i]) - 1], m>>) /\ New(m)
\* one colour keeps the even ranks of the parent, in reverse order; the others get a group of their own, which is not used any more
Split(P) == /\ Len(live[P]) > 1 /\ made < MaxG
            /\ LET ev == SelectSeq(live[P], LAMBDA x : (Rk(live[P], x) - 1) % 2 = 0) IN
               Add(<<"split", made + 1, P, Reverse(ev), live[P]>>) /\ New(Reverse(ev))
Dup(P) == made < MaxG /\ Add(<<"dup", made + 1, P, live[P], live[P]>>) /\ New(live[P])
Free(G) == G # 0 /\ Add(<<"free", G, live[G]>>) /\ live' = [g \in DOMAIN live \ {G} |-> live[g]] /\ UNCHANGED made
Use(G) == Add(<<"use", G, live[G]>>) /\ UNCHANGED <<live, made>>
Next == \E P \in DOMAIN live : \/ \E m \in Perms(live[P]) : (Sorted => InOrder(live[P], m)) /\ Create(P, m)
                               \/ Split(P) \/ Dup(P) \/ Free(P) \/ (P # 0 /\ Use(P))
Spec == Init /\ [][Next]_vars
Emitted == Len(prog) = Depth => Out(prog)
=============================================================================
