---------------------------- MODULE ArmciMisuse -----------------------------
(***************************************************************************)
(* Calls that the state of the library forbids.  Such a call never returns *)
(* and has no effect: the only step that may follow on the process is the  *)
(* abort of the program, with the caller's code when the call asked for    *)
(* it.  What is forbidden follows from the state of the other modules.     *)
(***************************************************************************)
EXTENDS ArmciMem, ArmciSync, ArmciGroups, ArmciLife

VARIABLE bad   \* process -> code to abort with, or 0 for any (only processes that issued a forbidden call)
MisuseInit == bad = <<>>

Ids(s) == {s[i] : i \in DOMAIN s}
MutexHeld(H, p) == H \in DOMAIN mtx /\ p \in mtx[H].live
MutexMax(H) == CHOOSE m \in {mtx[H].n[t] : t \in DOMAIN mtx[H].n} : \A t \in DOMAIN mtx[H].n : mtx[H].n[t] <= m
AccTypes == {"i", "l", "f", "d", "c", "z"}
\* bytes of a value; a complex one that is not scaled may be accumulated by parts
TypeSize(t, scaled) == CASE t = "i" -> 4 [] t = "l" -> 8 [] t = "f" -> 4 [] t = "d" -> 8 [] t = "c" -> (IF scaled THEN 8 ELSE 4) [] t = "z" -> (IF scaled THEN 16 ELSE 8)
GopOps == {"+", "*", "max", "min", "absmax", "absmin", "or", "land", "lor", "band", "bor", "&&", "||", "&", "|"}

(* kind k with numbers a, b and word s, on handle H or group g; sc: an accumulate with a scale other than one *)
Forbidden(p, k, a, b, s, H, g, sc) ==
  CASE k \in {"lock", "trylock", "unlock"} ->            \* mutex a of process b
         ~MutexHeld(H, p) \/ a < 0 \/ a >= MutexMax(H) \/ b \notin Ids(mtx[H].mem)
    [] k = "mdestroy" -> ~MutexHeld(-1, p)
    [] k = "mcreate" -> MutexHeld(-1, p) \/ a <= 0        \* a mutexes (on every process the same)
    [] k = "init" -> Inits(p) = 0 /\ a > b                \* thread level a wanted, MPI provides b (-1: MPI is not running)
    [] k = "malloc" -> Inits(p) = 0
    [] k \in {"free", "abegin", "aend"} -> a < 0 \/ ~Live(a, p)   \* an address of allocation a, or a private one
    [] k = "acc" -> s \notin AccTypes \/ b % TypeSize(s, sc) # 0   \* b bytes of type s
    [] k = "rmw" -> s \notin {"fadd", "swap"}
    [] k = "gop" -> s \notin GopOps
    [] k = "sel" -> s \notin {"min", "max"}
    [] k = "gtype" -> s \notin {"i", "l", "q", "f", "d"}
    [] k = "bcast" -> b \notin Ids(Members(g, p))
    [] k = "absid" -> b < 0 \/ b >= Len(Members(g, p))
    [] k = "target" -> b \notin 0..(world - 1)
    [] k \in {"handle", "address", "reduce", "error", "abort"} -> TRUE   \* no handle; no origin address; not provided; asked for
    [] OTHER -> FALSE

MisuseCall(p, k, a, b, s, H, g, sc) ==
  /\ p \notin DOMAIN bad
  /\ Forbidden(p, k, a, b, s, H, g, sc) = TRUE
  /\ bad' = (p :> (IF k \in {"error", "abort"} THEN a ELSE 0)) @@ bad
MayAbort(p, code) == p \in DOMAIN bad /\ (bad[p] = 0 \/ bad[p] = code)
=============================================================================
