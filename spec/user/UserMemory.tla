----------------------------- MODULE UserMemory -----------------------------
(***************************************************************************)
(* Lives of the library: nested initialisation, collective allocation with *)
(* slices that may be empty (a pattern is the number whose bits say who has cells), use and release in any order, implicit        *)
(* release by the last finalize, and starting again.                       *)
(***************************************************************************)
EXTENDS Emit
CONSTANTS Depth, Patterns, MaxAlloc, Reinit
VARIABLES prog, cnt, live, made
vars == <<prog, cnt, live, made>>
Add(c) == Len(prog) < Depth /\ prog' = Append(prog, c)
Init == prog = <<>> /\ cnt = 0 /\ live = {} /\ made = 0
Start == cnt < 2 /\ Reinit /\ Add(<<"init">>) /\ cnt' = cnt + 1 /\ UNCHANGED <<live, made>>
Stop == cnt > 0 /\ Reinit /\ Add(<<"finalize", IF cnt = 1 THEN 1 ELSE 0>>) /\ cnt' = cnt - 1 /\ live' = (IF cnt = 1 THEN {} ELSE live) /\ UNCHANGED made
Up == Reinit => cnt > 0
Malloc(p) == Up /\ made < MaxAlloc /\ Add(<<"malloc", made, p>>) /\ live' = live \cup {<<made, p>>} /\ made' = made + 1 /\ UNCHANGED cnt
Free(a) == Up /\ Add(<<"free", a[1]>>) /\ live' = live \ {a} /\ UNCHANGED <<cnt, made>>
Use == Up /\ live # {} /\ Len(prog) > 0 /\ prog[Len(prog)][1] # "use" /\ Add(<<"use">>) /\ UNCHANGED <<cnt, live, made>>
Next == Start \/ Stop \/ (\E p \in Patterns : Malloc(p)) \/ (\E a \in live : Free(a)) \/ Use
Spec == Init /\ [][Next]_vars
Emitted == Len(prog) = Depth => Out(prog)
=============================================================================
