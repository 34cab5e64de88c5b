----------------------------- MODULE ArmciTrace -----------------------------
(***************************************************************************)
(* Binds recorded executions of the implementation to the specification:   *)
(* every event must be an action of ArmciMem, ArmciSync, ArmciGroups,      *)
(* ArmciMsg, ArmciLife, ArmciMisuse, ArmciTune or ConflictTree with the    *)
(* logged arguments.  A trace is a   *)
(* concatenation of jobs; a "job" event resets the state.                  *)
(***************************************************************************)
EXTENDS ArmciMem, ArmciSync, ArmciGroups, ArmciMsg, ArmciLife, ArmciMisuse, ArmciTune, ConflictTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<memvars, syncvars, groupvars, msgvars, lifevars, treevars, bad, l>>

E == Trace[l]
Is0(k) == l <= Len(Trace) /\ Trace[l].e = k /\ l' = l + 1
Is(k) == Is0(k) /\ bad' = bad

MemOnly == UNCHANGED <<syncvars, groupvars, msgvars, lifevars, treevars>>
SyncOnly == UNCHANGED <<memvars, groupvars, msgvars, lifevars, treevars>>
GroupOnly == UNCHANGED <<memvars, syncvars, msgvars, lifevars, treevars>>
MsgOnly == UNCHANGED <<memvars, syncvars, groupvars, lifevars, treevars>>
LifeOnly == UNCHANGED <<memvars, syncvars, groupvars, msgvars, treevars>>
TreeOnly == UNCHANGED <<memvars, syncvars, groupvars, msgvars, lifevars>>
Nothing == UNCHANGED <<memvars, syncvars, groupvars, msgvars, lifevars, treevars>>

TInit == MemInit /\ SyncInit /\ GroupsInit /\ MsgInit /\ LifeInit /\ TreeInit /\ MisuseInit /\ l = 1

Fld(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

Job == /\ Is0("job") /\ bad' = <<>>
       /\ alloc' = <<>> /\ hist' = <<>> /\ pend' = <<>> /\ ops' = <<>> /\ lc' = E.lc /\ fset' = <<>>
       /\ bent' = <<>> /\ mtx' = <<>> /\ holder' = <<>> /\ want' = <<>> /\ queued' = <<>>
       /\ world' = E.n /\ grp' = <<>> /\ gdef' = <<>> /\ gin' = <<>>
       /\ chan' = <<>> /\ cnum' = <<>> /\ cin' = <<>> /\ sbuf' = <<>>
       /\ icount' = <<>> /\ tree' = <<>> /\ civ' = {}
\* a job ends when all processes reached the end of their script, or with the abort that an invalid access calls for
JobEnd == Is("jobend") /\ Nothing
End == Is("end") /\ Nothing
Done == Is("done") /\ AllSettled /\ TreeSpans(world) /\ Nothing
Note == Is("note") /\ Nothing
(* What a process holds (communicators, datatypes, requests, windows, memory ...) is bounded by what is in use at that moment:
   its allocations, groups, mutexes and operations.  It does not grow with the number of objects made and released before. *)
InUse(p) == Cardinality({A \in DOMAIN alloc : Live(A, p)}) + Cardinality({k \in DOMAIN grp : k[2] = p})
            + Cardinality({id \in DOMAIN ops : ops[id].p = p})
            + Cardinality(UNION {{<<H, t, m>> : t \in DOMAIN mtx[H].n, m \in 0..8} : H \in {H \in DOMAIN mtx : p \in mtx[H].live}})
TRes == /\ Is("res")
        /\ LET u == InUse(E.p) IN
           /\ E.comm <= 8 + 12 * u /\ E.grp <= 8 + 4 * u /\ E.dt <= 8 + 4 * u /\ E.info <= 8 + 4 * u
           /\ E.req <= 8 + 8 * u /\ E.win <= 2 + u /\ E.blk <= 24 + 20 * u /\ E.op <= 16
           \* nothing is left of a library that was shut down and of objects all of which were released
           /\ (Inits(E.p) = 0 /\ u = 0) => (E.grp = 0 /\ E.dt = 0 /\ E.info = 0 /\ E.req = 0 /\ E.win = 0 /\ E.op = 0 /\ E.comm <= 2 /\ E.blk = 0)
        /\ Nothing
\* the library may abort only a process that asked for it or issued an invalid operation
Abort == /\ Is("abort")
         /\ ((\E id \in DOMAIN ops : ops[id].p = E.p /\ ops[id].stage = "call" /\ ~ops[id].ok) \/ MayAbort(E.p, Fld(E, "code", 0))) = TRUE
         /\ Nothing
TMisuse == Is0("mis") /\ MisuseCall(E.p, E.k, E.a, E.b, E.s, E.H, E.g, E.sc = 1) /\ Nothing

TMem == Is("mem") /\ MemChange(E.a, E.o, E.c, E.v) /\ MemOnly
TMalloc == Is("ma") /\ MallocCall(E.A, E.p, Members(E.g, E.p), E.n, E.cs) /\ MemOnly
TMallocR == Is("mar") /\ E.rc = 0 /\ E.tail = 1 /\ MallocReturn(E.A, E.p, E.base) /\ MemOnly
TFree == Is("fr") /\ FreeCall(E.A, E.p) /\ MemOnly
TFreeR == Is("frr") /\ E.rc = 0 /\ FreeReturn(E.A, E.p) /\ MemOnly
TMLocal == (Is("ml") /\ (E.n = 0 \/ E.b >= 0) /\ Nothing) \/ (Is("fl") /\ Nothing)

Elems(e) == IF e.f = "v" THEN VectorElems(e.segs) ELSE StridedElems(e.A, e.ro, e.rs, e.lo, e.ls, e.cnt)
TIssue == /\ Is("x")
          /\ Issue(E.id, E.p, E.t, E.op, E.nb, E.h, Elems(E), E.L, IF "q" \in DOMAIN E THEN E.q ELSE <<>>, E.la, E.at, E.sc,
                   IF E.f \in {"pf", "psf"} THEN <<E.fa, E.fc, E.fv>> ELSE <<>>, Entered(0, E.p))
          /\ MemOnly
TReturn == Is("xr") /\ E.rc = 0 /\ ("burst" \in DOMAIN E => BurstOK(E.burst, E.lim, E.meth)) = TRUE /\ Return(E.id, E.p, E.L) /\ MemOnly
TIssued == Is("xi") /\ E.rc = 0 /\ Issued(E.id, E.p) /\ MemOnly
TRmw == Is("rmw") /\ RmwCall(E.id, E.p, E.t, E.op, E.A, E.c, E.v, E.la, E.lc, Entered(0, E.p)) /\ MemOnly
TRmwR == Is("rmwr") /\ E.rc = 0 /\ E.ok = 1 /\ RmwReturn(E.id, E.p, E.r) /\ MemOnly
TWindow == Is("win") /\ WindowOK(E.use, E.k, E.n, E.h, E.v) = TRUE /\ Nothing
TEpoch == Is("lka") /\ EpochOK(E.a, E.nc) = TRUE /\ Nothing
THandedOut == Is("zer") /\ HandedOutOK(E.z, E.v) = TRUE /\ Nothing
THInit == Is("hi") /\ Nothing
TWaitCall == Is("w") /\ Nothing
TWaitR == /\ Is("wr") /\ E.rc = 0
          /\ LET S == {E.c[i].id : i \in DOMAIN E.c}
                 buf == [id \in S |-> (CHOOSE r \in {E.c[i] : i \in DOMAIN E.c} : r.id = id).L] IN
             CASE E.k = "h" -> WaitHandle(E.p, E.h, S, buf)
               [] E.k = "p" -> WaitProc(E.p, E.t, S, buf)
               [] E.k = "a" -> WaitAll(E.p, S, buf)
          /\ MemOnly
\* an unsuccessful test: only so often
TTestR == Is("tr") /\ E.n < 250 /\ Nothing
TFence == Is("fe") /\ FenceCall(E.p, E.th, E.t) /\ MemOnly
TFenceR == Is("fer") /\ FenceReturn(E.p, E.th, E.t) /\ MemOnly
TStore == Is("st") /\ Store(E.p, E.A, E.c, E.v) /\ MemOnly
TStored == Is("str") /\ Stored(E.p, E.A) /\ MemOnly
TLoad == Is("ld") /\ Load(E.p, E.A, E.c, E.v) /\ MemOnly
TAccessEnd == Is("ae") /\ Nothing

TBarrier == Is("ba") /\ BarrierEnter(IF E.k = "G" THEN E.g ELSE 0, E.p) /\ SyncOnly
TBarrierR == /\ Is("bar")
             /\ LET g == IF E.k = "G" THEN E.g ELSE 0 IN BarrierLeave(g, E.p, Members(g, E.p))
             /\ IF E.k = "A" THEN BarrierSettle(Entered(0, E.p)) ELSE UNCHANGED memvars
             /\ UNCHANGED <<groupvars, msgvars, lifevars, treevars>>

TMutex ==
  /\ \/ Is("mc") /\ MutexCreateCall(E.H, E.p, Members(E.g, E.p), E.n)
     \/ Is("mcr") /\ MutexCreateReturn(E.H, E.p, E.rc)
     \/ Is("md") /\ MutexDestroyCall(E.H, E.p)
     \/ Is("mdr") /\ MutexDestroyReturn(E.H, E.p, E.rc)
     \/ Is("lk") /\ LockCall(E.p, E.th, E.H, E.m, E.t)
     \/ Is("tl") /\ LockCall(E.p, E.th, E.H, E.m, E.t)
     \/ Is("lkr") /\ LockReturn(E.p, E.th, E.H, E.m, E.t)
     \/ Is("tlr") /\ TryReturn(E.p, E.th, E.H, E.m, E.t, E.rc)
     \/ Is("ul") /\ UnlockCall(E.p, E.th, E.H, E.m, E.t)
     \/ Is("ulr") /\ UnlockReturn(E.p, E.th, E.H, E.m, E.t)
     \/ Is("blk") /\ Blocked(E.p, E.th)
  /\ SyncOnly

TGroup ==
  /\ \/ Is("gc") /\ CreateCall(E.G, IF E.P < 0 THEN DefaultOf(E.p) ELSE E.P, E.p, E.mem)
     \/ Is("gs") /\ SplitCall(E.G, E.P, E.p, E.color, E.key)
     \/ Is("gd") /\ DupCall(E.G, E.P, E.p)
     \/ Is("gr") /\ Fld(E, "rc", 0) = 0 /\ GroupReturn(E.G, E.p, E.rrc, E.rank, E.size, E.abs)
     \/ Is("gq") /\ Query(E.G, E.p, E.rrc, E.rank, E.size, E.abs)
     \/ Is("gqd") /\ Query(DefaultOf(E.p), E.p, E.rrc, E.rank, E.size, E.abs)
     \/ Is("gqw") /\ Query(0, E.p, E.rrc, E.rank, E.size, E.abs)
     \/ Is("gdef") /\ SetDefault(E.G, E.p)
     \/ Is("gf") /\ FreeGroup(E.G, E.p)
     \/ Is("gfr") /\ E.rank < 0 /\ UNCHANGED groupvars
  /\ GroupOnly

TSend == Is("sn") /\ SendCall(E.p, E.t, E.tag, E.v) /\ MsgOnly
TSendR == Is("snr") /\ SendReturn(E.p, E.v) /\ MsgOnly
\* receive buffers in global memory: cells may change during the call, and are then compared like private ones
GMem(p, a, c, n) == [i \in 1..n |-> Cur(Key(a, p, c + i - 1))]
TRecv == Is("rc") /\ (IF E.la >= 0 THEN Expect(E.p, E.la, E.lc, E.n) ELSE UNCHANGED memvars) /\ UNCHANGED <<syncvars, groupvars, msgvars, lifevars, treevars>>
\* value of a cell before the message was stored: the entry's cell history at call time is its value before the last change
Before1(p, a, c, i) == LET k == Key(a, p, c + i - 1) h == Hist(hist, k) IN
  IF \E j \in DOMAIN Pend(pend, k) : Pend(pend, k)[j].id = -2000000 - p THEN h[Len(h)] ELSE IF Len(h) > 1 THEN h[Len(h) - 1] ELSE 0
TRecvR == /\ Is("rcr")
          /\ LET old == IF E.la < 0 THEN [i \in DOMAIN E.v |-> -5] ELSE [i \in DOMAIN E.v |-> Before1(E.p, E.la, E.lc, i)]
             IN RecvReturn(E.p, E.t, E.tag, E.len, E.v, old)
          /\ IF E.la >= 0 THEN E.v = GMem(E.p, E.la, E.lc, Len(E.v)) /\ Expected(E.p) ELSE UNCHANGED memvars
          /\ UNCHANGED <<syncvars, groupvars, lifevars, treevars>>
TColl == /\ Is("co") /\ CollCall(E.p, E.g, [k |-> E.k, s |-> E.s, root |-> E.root, op |-> E.op, v |-> E.v])
         /\ IF E.la >= 0 THEN Expect(E.p, E.la, E.lc, Len(E.v)) ELSE UNCHANGED memvars
         /\ UNCHANGED <<syncvars, groupvars, lifevars, treevars>>
TCollR == /\ Is("cor") /\ CollReturn(E.p, E.g, Members(E.g, E.p), E.v, E.over)
          /\ IF E.la >= 0 THEN E.v = GMem(E.p, E.la, E.lc, Len(E.v)) /\ Expected(E.p) ELSE UNCHANGED memvars
          /\ UNCHANGED <<syncvars, groupvars, lifevars, treevars>>

TLife ==
  /\ \/ Is("init") /\ InitCall(E.p)
     \/ Is("initr") /\ InitReturn(E.p, E.rc, E.i, E.me, E.np, world)
     \/ Is("finr") /\ FinalizeReturn(E.p, E.rc, E.i)
     \/ Is("ini") /\ InitializedQuery(E.p, E.i)
     \/ Is("tp") /\ TopologyOK(E.p, world, E.me, E.np, E.cnt, E.myid, E.id, E.same, E.node, E.nprocs, E.loc) /\ E.wr = E.p /\ E.ws = world   \* the communicator handed out is the world
                 /\ (E.shm = 0) = (\A i \in 1..world : E.node[i] = 0 \/ i = E.p + 1) /\ E.shg = E.shm   \* memory is shared with the others of the node, if any
                 /\ UNCHANGED lifevars
     \/ Is("bt") /\ BintreeAnswer(E.p, world, E.s, E.root, E.up, E.left, E.right)
     \/ Is("pk") /\ PackOK(E.w, E.lo, E.st, E.cnt, E.X0, E.Y0, E.X1, E.Y1) /\ UNCHANGED lifevars
     \/ Is("cp") /\ (\A i \in DOMAIN E.y : E.y[i] = IF i <= E.n THEN E.x[i] ELSE 0) /\ UNCHANGED lifevars
  /\ LifeOnly
TFinal == /\ Is("fin") /\ FinalizeCall(E.p) /\ (IF Inits(E.p) = 1 THEN FreeAll(E.p) ELSE UNCHANGED memvars)
          /\ UNCHANGED <<syncvars, groupvars, msgvars, treevars>>

TTree ==
  /\ \/ Is("cn") /\ NewTree
     \/ Is("cd") /\ E.empty = 1 /\ NewTree
     \/ Is("ci") /\ InsertIv(<<E.lo, E.hi>>, E.r)
     \/ Is("cl") /\ LocateIv(<<E.lo, E.hi>>, E.f)
     \/ Is("cw") /\ WalkOK(E.t)
     \/ Is("cov") /\ OverlapOK(E.s, E.q, E.r)
  /\ TreeOnly

TNext == \/ Job \/ JobEnd \/ End \/ Done \/ Note \/ TRes \/ Abort \/ TMisuse
         \/ TMem \/ TMalloc \/ TMallocR \/ TFree \/ TFreeR \/ TMLocal
         \/ TIssue \/ TReturn \/ TIssued \/ TRmw \/ TRmwR \/ THInit \/ TWaitCall \/ TWaitR \/ TTestR
         \/ TFence \/ TFenceR \/ TStore \/ TStored \/ TLoad \/ TAccessEnd \/ TWindow \/ TEpoch \/ THandedOut
         \/ TBarrier \/ TBarrierR \/ TMutex \/ TGroup \/ TSend \/ TSendR \/ TRecv \/ TRecvR \/ TColl \/ TCollR \/ TLife \/ TFinal \/ TTree
TSpec == TInit /\ [][TNext]_vars
Reached == TLCGet("stats").diameter
Accepted == PrintT(<<"REACHED", Reached - 1, Len(Trace)>>) /\ Reached - 1 = Len(Trace)
=============================================================================
