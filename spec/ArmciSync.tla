----------------------------- MODULE ArmciSync ------------------------------
(***************************************************************************)
(* Barriers and mutexes.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  bent,    \* <<group, process>> -> number of barriers on the group this process has entered
  mtx,     \* handle -> [mem: members, n: process -> number of mutexes, live: processes that have it]
  holder,  \* <<handle, mutex, process>> -> <<owner process, thread>>; absent: free
  want,    \* <<process, thread>> -> mutex it is waiting for
  queued   \* <<process, thread>> -> (process -> number of acquisitions by it since this one was queued)
syncvars == <<bent, mtx, holder, want, queued>>

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

SyncInit == bent = <<>> /\ mtx = <<>> /\ holder = <<>> /\ want = <<>> /\ queued = <<>>

Entered(g, p) == Get(bent, <<g, p>>, 0)
BarrierEnter(g, p) == bent' = Put(bent, <<g, p>>, Entered(g, p) + 1) /\ UNCHANGED <<mtx, holder, want, queued>>
\* nobody leaves before every member has entered
BarrierLeave(g, p, mem) == /\ \A i \in DOMAIN mem : Entered(g, mem[i]) >= Entered(g, p)
                           /\ UNCHANGED syncvars

----------------------------------------------------------------------------
MutexCreateCall(H, p, mem, n) ==
  /\ mtx' = IF H \in DOMAIN mtx /\ p \notin DOMAIN mtx[H].n
            THEN [mtx EXCEPT ![H].n = Put(@, p, n)]
            ELSE Put(mtx, H, [mem |-> mem, n |-> (p :> n), live |-> {}])
  /\ UNCHANGED <<bent, holder, want, queued>>
MutexCreateReturn(H, p, rc) ==
  /\ rc = 0 /\ H \in DOMAIN mtx
  /\ DOMAIN mtx[H].n = {mtx[H].mem[i] : i \in DOMAIN mtx[H].mem}   \* collective
  /\ mtx' = [mtx EXCEPT ![H].live = @ \cup {p}]
  /\ UNCHANGED <<bent, holder, want, queued>>
MutexDestroyCall(H, p) ==
  /\ H \in DOMAIN mtx /\ p \in mtx[H].live
  /\ \A k \in DOMAIN holder : ~(k[1] = H /\ holder[k][1] = p)
  /\ mtx' = [mtx EXCEPT ![H].live = @ \ {p}]
  /\ UNCHANGED <<bent, holder, want, queued>>
MutexDestroyReturn(H, p, rc) == rc = 0 /\ UNCHANGED syncvars

Exists(H, m, t) == H \in DOMAIN mtx /\ t \in DOMAIN mtx[H].n /\ m >= 0 /\ m < mtx[H].n[t]

LockCall(p, th, H, m, t) == /\ Exists(H, m, t)
                            /\ want' = Put(want, <<p, th>>, <<H, m, t>>)
                            /\ UNCHANGED <<bent, mtx, holder, queued>>
\* process p is now known to be queued: it blocks inside a lock call
Blocked(p, th) ==
  /\ queued' = IF <<p, th>> \in DOMAIN want /\ <<p, th>> \notin DOMAIN queued THEN Put(queued, <<p, th>>, <<>>) ELSE queued
  /\ UNCHANGED <<bent, mtx, holder, want>>
Acquire(p, th, H, m, t) ==
  /\ <<H, m, t>> \notin DOMAIN holder                       \* mutual exclusion
  /\ holder' = Put(holder, <<H, m, t>>, <<p, th>>)
  /\ want' = Del(want, <<p, th>>)
  /\ LET waiters == {w \in DOMAIN queued : w # <<p, th>> /\ Get(want, w, <<>>) = <<H, m, t>>} IN
     /\ \A w \in waiters : Get(queued[w], <<p, th>>, 0) < 1      \* bounded bypass
     /\ queued' = [w \in DOMAIN queued \ {<<p, th>>} |->
                    IF w \in waiters THEN Put(queued[w], <<p, th>>, Get(queued[w], <<p, th>>, 0) + 1) ELSE queued[w]]
  /\ UNCHANGED <<bent, mtx>>
LockReturn(p, th, H, m, t) == Get(want, <<p, th>>, <<>>) = <<H, m, t>> /\ Acquire(p, th, H, m, t)
TryReturn(p, th, H, m, t, rc) ==
  IF rc = 0 THEN LockReturn(p, th, H, m, t)
  ELSE /\ want' = Del(want, <<p, th>>) /\ queued' = Del(queued, <<p, th>>) /\ UNCHANGED <<bent, mtx, holder>>
UnlockCall(p, th, H, m, t) ==
  /\ Get(holder, <<H, m, t>>, <<>>) = <<p, th>>
  /\ holder' = Del(holder, <<H, m, t>>)
  /\ UNCHANGED <<bent, mtx, want, queued>>
UnlockReturn(p, th, H, m, t) == UNCHANGED syncvars
=============================================================================
