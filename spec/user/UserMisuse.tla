----------------------------- MODULE UserMisuse -----------------------------
(***************************************************************************)
(* Every forbidden call in every reachable state of a small user: MPI at a *)
(* level (or not started), nested initialisation, the default mutexes, one *)
(* allocation, mutexes on a handle; the last element of a program is the   *)
(* forbidden call <<kind, a, b, word, variant>>.                           *)
(***************************************************************************)
EXTENDS Emit
CONSTANTS Depth, Levels     \* Levels: thread levels of MPI, 9: not started
VARIABLES prog, lv, ini, mt, al, hm, done
vars == <<prog, lv, ini, mt, al, hm, done>>
Init == lv \in Levels /\ prog = <<<<"mpi", lv>>>> /\ ini = 0 /\ mt = 0 /\ al = "none" /\ hm = 0 /\ done = FALSE
Add(c) == ~done /\ Len(prog) < Depth /\ prog' = Append(prog, c) /\ UNCHANGED <<lv, done>>
Up == lv # 9 /\ Add(<<"init">>) /\ ini < 2 /\ ini' = ini + 1 /\ UNCHANGED <<mt, al, hm>>
Down == ini > 0 /\ (ini = 1 => mt = 0 /\ hm = 0) /\ Add(<<"finalize", IF ini = 1 THEN 1 ELSE 0>>) /\ ini' = ini - 1 /\ al' = (IF ini = 1 THEN "none" ELSE al) /\ UNCHANGED <<mt, hm>>
MCreate == ini > 0 /\ mt = 0 /\ \E n \in 1..2 : Add(<<"mcreate", n>>) /\ mt' = n /\ UNCHANGED <<ini, al, hm>>
MDestroy == mt > 0 /\ Add(<<"mdestroy">>) /\ mt' = 0 /\ UNCHANGED <<ini, al, hm>>
Malloc == ini > 0 /\ al # "live" /\ Add(<<"malloc">>) /\ al' = "live" /\ UNCHANGED <<ini, mt, hm>>
Free == al = "live" /\ Add(<<"free">>) /\ al' = "freed" /\ UNCHANGED <<ini, mt, hm>>
HCreate == ini > 0 /\ hm = 0 /\ Add(<<"hmcreate", 2>>) /\ hm' = 2 /\ UNCHANGED <<ini, mt, al>>
HDestroy == hm > 0 /\ Add(<<"hmdestroy">>) /\ hm' = 0 /\ UNCHANGED <<ini, mt, al>>

C(k, a, b, w, f) == <<k, a, b, w, f>>
Forbidden ==
     (IF ini = 0 THEN {C("init", a, lv, "", f) : a \in 0..3, f \in {0, 4}} ELSE {})
  \cup (IF ini = 0 /\ lv # 9 THEN {C("malloc", 0, 0, "", 0)} ELSE {})
  \cup (IF ini > 0 /\ mt = 0 THEN {C("lock", 0, b, "", 0) : b \in 0..1} \cup {C("unlock", 0, 0, "", 0), C("mdestroy", 0, 0, "", 0), C("mcreate", 0, 0, "", 0)} ELSE {})
  \cup (IF mt > 0 THEN {C("mcreate", a, 0, "", 0) : a \in 1..2} \cup {C(k, a, b, "", 0) : k \in {"lock", "unlock"}, a \in {mt, mt + 1, 99}, b \in 0..1} ELSE {})
  \cup (IF hm > 0 THEN {C(k, a, b, "h", 0) : k \in {"lock", "unlock", "trylock"}, a \in {hm, hm + 1}, b \in 0..1} ELSE {})
  \cup (IF ini > 0 THEN {C("free", 9, 0, "", f) : f \in 0..2} \cup {C(k, 9, 0, "", 0) : k \in {"abegin", "aend"}} ELSE {})
  \cup (IF al = "freed" THEN {C("free", 0, 0, "", f) : f \in 0..2} \cup {C(k, 0, 0, "", 0) : k \in {"abegin", "aend"}} ELSE {})
  \cup (IF al = "live" THEN {C("rmw", a, b, "bad", 0) : a \in {4, 5, 99}, b \in 0..1} \cup {C("acc", a, 4, "x", f) : a \in {6, 99}, f \in 4..7}
                        \cup {C("acc", 0, z[2], z[1], f) : z \in {<<"i", 3>>, <<"i", 6>>, <<"l", 12>>, <<"f", 5>>, <<"d", 4>>, <<"c", 4>>, <<"c", 12>>, <<"z", 8>>, <<"z", 24>>, <<"c", 2>>, <<"z", 12>>}, f \in {0, 1, 2, 4, 5, 6}}
                        \cup {C("target", 0, b, "", f) : b \in {2, 3}, f \in 0..6} \cup {C("address", 0, 1, "", f) : f \in {0, 1, 3, 4}} ELSE {})
  \cup (IF ini > 0 THEN {C("gop", 0, 0, w, f) : w \in {"x", "sum", "-"}, f \in 0..3} \cup {C("gtype", a, 0, "bad", f) : a \in {5, 99}, f \in 0..1}
                        \cup {C("sel", 0, 0, w, f) : w \in {"sum", "+"}, f \in 0..1} \cup {C("absid", 0, b, "", 0) : b \in {2, 7}}
                        \cup {C("handle", 0, 0, "", f) : f \in 0..3} \cup {C("reduce", 0, 0, "", f) : f \in 0..1} \cup {C("error", 5, 0, "", 0), C("abort", 7, 0, "", 0)} ELSE {})
\* calls whose refusal does not depend on the state are tried from short histories only
Short(c) == c[1] \in {"gop", "gtype", "sel", "absid", "handle", "reduce", "error", "abort", "acc", "target", "address", "rmw"} => Len(prog) <= 3
Legal(c) == /\ c[1] = "init" => (lv = 9 \/ c[2] > lv)
            /\ c[1] = "acc" /\ c[5] < 4 => ~(c[4] = "c" /\ c[3] % 4 = 0) /\ ~(c[4] = "z" /\ c[3] % 8 = 0)   \* by parts
Wrong == ~done /\ \E c \in Forbidden : Short(c) /\ Legal(c) /\ prog' = Append(prog, c) /\ done' = TRUE /\ UNCHANGED <<lv, ini, mt, al, hm>>
Next == Up \/ Down \/ MCreate \/ MDestroy \/ Malloc \/ Free \/ HCreate \/ HDestroy \/ Wrong
Spec == Init /\ [][Next]_vars
Emitted == done => Out(prog)
=============================================================================
