------------------------------ MODULE ArmciMem ------------------------------
(***************************************************************************)
(* The global memory of ARMCI and its one-sided operations.                *)
(*                                                                         *)
(* Memory consists of allocations; allocation A has on each member process *)
(* a slice of cells.  hist[key] is the history of the values of one cell   *)
(* (the last one is the current value).  An operation is issued (call),    *)
(* its elements take effect one by one at any later time (MemChange), it   *)
(* becomes locally complete (return or wait) and, for stores, must have    *)
(* taken effect when a fence or barrier that covers it returns.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Shapes

VARIABLES
  alloc,   \* allocation id -> [mem: members (seq), n: process -> cells, base: seq of addresses or <<>>, called, freed: sets of processes, ...]
  hist,    \* cell key -> nonempty sequence of values; absent means <<0>>
  pend,    \* cell key -> nonempty sequence of entries not yet applied; absent means <<>>
  ops,     \* operation id -> operation in progress (not locally complete, or with elements not yet applied)
  lc,      \* does this configuration promise location consistency (see ASSUMPTIONS in DESIGN.md)
  fset     \* <<process, thread>> -> the stores its fence in progress must complete
memvars == <<alloc, hist, pend, ops, lc, fset>>

Key(a, r, c) == ((a * 64) + r) * 4096 + c
Hist(h, k) == IF k \in DOMAIN h THEN h[k] ELSE <<0>>
Pend(pd, k) == IF k \in DOMAIN pd THEN pd[k] ELSE <<>>
Cur(k) == LET s == Hist(hist, k) IN s[Len(s)]
SetFn(f, k, v) == (k :> v) @@ f
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
SetPend(pd, k, s) == IF s = <<>> THEN Drop(pd, {k}) ELSE SetFn(pd, k, s)
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

MemInit == alloc = <<>> /\ hist = <<>> /\ pend = <<>> /\ ops = <<>> /\ lc = 1 /\ fset = <<>>

----------------------------------------------------------------------------
(* Allocation *)

Live(A, r) == A \in DOMAIN alloc /\ r \in DOMAIN alloc[A].n /\ r \notin alloc[A].freed
InSlice(A, r, c) == Live(A, r) /\ alloc[A].base # <<>> /\ c >= 0 /\ c < alloc[A].n[r]

\* process p calls Malloc for allocation A on the member sequence mem with n cells of cs bytes
MallocCall(A, p, mem, n, cs) ==
  /\ IF A \in DOMAIN alloc
     THEN /\ p \notin DOMAIN alloc[A].n /\ alloc[A].mem = mem
          /\ alloc' = [alloc EXCEPT ![A].n = SetFn(@, p, n)]
     ELSE alloc' = SetFn(alloc, A, [mem |-> mem, n |-> (p :> n), cs |-> cs, base |-> <<>>, freed |-> {}])
  /\ UNCHANGED <<hist, pend, ops, lc, fset>>

Overlap(b1, s1, b2, s2) == b1 < b2 + s2 /\ b2 < b1 + s1
PosIn(mem, r) == CHOOSE i \in DOMAIN mem : mem[i] = r

\* all members have called; every member gets the same base addresses, NULL (-1) exactly for empty slices, disjoint from live slices
MallocReturn(A, p, base) ==
  LET al == alloc[A] IN
  /\ A \in DOMAIN alloc /\ p \in DOMAIN al.n
  /\ DOMAIN al.n = {al.mem[i] : i \in DOMAIN al.mem}
  /\ Len(base) = Len(al.mem)
  /\ IF al.base # <<>> THEN base = al.base
     ELSE /\ \A i \in DOMAIN base : (base[i] = -1) <=> (al.n[al.mem[i]] = 0)
          /\ \A i \in DOMAIN base : base[i] # -1 => base[i] >= 0
          /\ \A i \in DOMAIN base : base[i] # -1 =>
               \A B \in DOMAIN alloc \ {A} :
                 LET r == al.mem[i] bl == alloc[B] IN
                 (Live(B, r) /\ bl.base # <<>> /\ bl.n[r] > 0) =>
                   ~Overlap(base[i], al.n[r] * al.cs, bl.base[PosIn(bl.mem, r)], bl.n[r] * bl.cs)
  /\ alloc' = [alloc EXCEPT ![A].base = base]
  /\ UNCHANGED <<hist, pend, ops, lc, fset>>

FreeCall(A, p) == /\ Live(A, p)
                  /\ alloc' = [alloc EXCEPT ![A].freed = @ \cup {p}]
                  /\ UNCHANGED <<hist, pend, ops, lc, fset>>
\* the last finalize releases what the process still has
FreeAll(p) == /\ alloc' = [A \in DOMAIN alloc |-> IF p \in DOMAIN alloc[A].n THEN [alloc[A] EXCEPT !.freed = @ \cup {p}] ELSE alloc[A]]
              /\ UNCHANGED <<hist, pend, ops, lc, fset>>
FreeReturn(A, p) == A \in DOMAIN alloc /\ p \in alloc[A].freed /\ UNCHANGED memvars

----------------------------------------------------------------------------
(* Issuing a transfer.  x is the descriptor, elems its elements, bar the number of barriers the origin has entered. *)

\* a put of a value that the cell had at some time since the put was issued may have taken effect without a visible change
MaySilent(k, e) == e.k = "p" /\ LET s == Hist(hist, k) IN \E j \in e.ix..Len(s) : s[j] = e.v

\* predecessors of a new access of process p to cell k: its own entries whose operation is already complete for the caller
Before(p, k, kind) == IF lc = 0 THEN {} ELSE
  {s.id : s \in {Pend(pend, k)[i] : i \in {j \in DOMAIN Pend(pend, k) :
      LET e == Pend(pend, k)[j] IN e.o = p /\ e.id \in DOMAIN ops /\ ops[e.id].stage = "done" /\ ~MaySilent(k, e) /\ ~(kind = "a" /\ e.k = "a")}}}

RECURSIVE AddEntries(_, _, _)
AddEntries(pd, ents, i) == IF i > Len(ents) THEN pd
  ELSE AddEntries(SetFn(pd, ents[i].key, Append(Pend(pd, ents[i].key), [ents[i].e EXCEPT !.ix = Len(Hist(hist, ents[i].key))])), ents, i + 1)

Entry(o, k, v, id, el, pre, after) == [o |-> o, k |-> k, v |-> v, id |-> id, el |-> el, pre |-> pre, after |-> after, ix |-> 1]

Valid(t, elems) == \A i \in DOMAIN elems : InSlice(elems[i][1], t, elems[i][2])

\* with la >= 0 (the local side is memory of allocation la) vector segments from PRIV on lie in a private buffer with contents q
PRIV == 100000
Shared(la, l) == la >= 0 /\ l < PRIV
Issue(id, p, t, kind, nb, h, elems, L, q, la, at, sc, flag, bar) ==
  LET keys == [i \in DOMAIN elems |-> Key(elems[i][1], t, elems[i][2])]
      flagok == flag = <<>> \/ InSlice(flag[1], t, flag[2])
      ok == Valid(t, elems) /\ flagok
      vs == [i \in DOMAIN elems |-> IF la < 0 \/ Shared(la, elems[i][3]) THEN L[elems[i][3] + 1] ELSE q[elems[i][3] - PRIV + 1]]
      cs == IF kind = "acc" THEN [i \in DOMAIN elems |-> Contribution(at, sc, vs, i)] ELSE vs
      data == IF kind = "get"
              THEN IF la < 0 THEN <<>>
                   ELSE SelectSeq([i \in DOMAIN elems |-> [key |-> Key(la, p, elems[i][3]), e |-> Entry(p, "g", i, id, i, {}, 0)]], LAMBDA z : elems[z.e.el][3] < PRIV)
              ELSE LET all == [i \in DOMAIN elems |-> [key |-> keys[i],
                           e |-> Entry(p, IF kind = "acc" THEN "a" ELSE "p", cs[i], id, i, Before(p, keys[i], IF kind = "acc" THEN "a" ELSE "p"), 0)]]
                   IN IF kind = "acc" THEN SelectSeq(all, LAMBDA z : z.e.v # 0) ELSE all
      fl == IF flag = <<>> THEN <<>> ELSE <<[key |-> Key(flag[1], t, flag[2]), e |-> Entry(p, "p", flag[3], id, 0, {}, 1)]>>
      \* an operation that leaves the allocation never returns; what it touched inside is unspecified
      inside == SelectSeq(elems, LAMBDA z : InSlice(z[1], t, z[2]))
      some == IF kind = "get" THEN IF la < 0 THEN <<>> ELSE SelectSeq([i \in DOMAIN inside |-> [key |-> Key(la, p, inside[i][3]), e |-> Entry(p, "m", 0, id, i, {}, 0)]], LAMBDA z : inside[z.e.el][3] < PRIV)
              ELSE [i \in DOMAIN inside |-> [key |-> Key(inside[i][1], t, inside[i][2]), e |-> Entry(p, "m", 0, id, i, {}, 0)]]
      ents == IF ok THEN data \o fl ELSE some
      W == IF kind = "get" /\ ok THEN UNION {{<<i, w>> : w \in Before(p, keys[i], "g")} : i \in DOMAIN elems} ELSE {}
  IN /\ id \notin DOMAIN ops
     /\ pend' = AddEntries(pend, ents, 1)
     /\ ops' = SetFn(ops, id, [p |-> p, t |-> t, kind |-> kind, nb |-> nb, h |-> h, stage |-> "call", ok |-> ok,
                 rem |-> IF kind = "get" THEN 0 ELSE Len(ents), bar |-> bar, la |-> la, L |-> IF la < 0 THEN L ELSE q,
                 keys |-> IF kind = "get" THEN keys ELSE <<>>, loc |-> IF kind = "get" THEN [i \in DOMAIN elems |-> elems[i][3]] ELSE <<>>,
                 idx |-> IF kind = "get" /\ ok THEN [i \in DOMAIN elems |-> Len(Hist(hist, keys[i]))] ELSE <<>>, W |-> W, old |-> 0])
     /\ UNCHANGED <<alloc, hist, lc, fset>>

\* the values element i of get operation g may return
Allowed(h, g, i) == LET s == Hist(h, g.keys[i]) IN {s[j] : j \in g.idx[i]..Len(s)}

----------------------------------------------------------------------------
(* A cell of global memory changes: some pending entry takes effect. *)

\* entries of one operation that differ in nothing but their element number are interchangeable: the first one is taken
Twin(e, f) == e.id = f.id /\ e.k = f.k /\ e.v = f.v /\ e.after = f.after /\ e.k # "g" /\ e.o = f.o
Takes(k, v, s, i) ==
  LET e == s[i] cur == Cur(k) IN
  /\ \A j \in 1..(i - 1) : ~Twin(s[j], e)
  /\ \A j \in DOMAIN s : s[j].id \notin e.pre \/ s[j].o # e.o \/ j = i
  /\ CASE e.k = "p" -> v = e.v /\ (e.after = 1 => ops[e.id].rem = 1)
       [] e.k = "a" -> v = cur + e.v
       [] e.k = "r" -> v = cur + e.v
       [] e.k = "s" -> v = e.v
       [] e.k = "g" -> v \in Allowed(hist, ops[e.id], e.el)
       [] e.k = "m" -> TRUE
       [] OTHER -> FALSE

\* get operations of the same origin that must observe this write
Observe(os, o, k, w, newlen) ==
  [g \in DOMAIN os |-> IF os[g].kind # "get" \/ os[g].W = {} \/ os[g].p # o THEN os[g]
     ELSE LET hit == {x \in os[g].W : x[2] = w /\ os[g].keys[x[1]] = k} IN
          IF hit = {} THEN os[g]
          ELSE [os[g] EXCEPT !.W = @ \ hit, !.idx = [i \in DOMAIN @ |-> IF \E x \in hit : x[1] = i THEN newlen ELSE @[i]]]]

Applied(os, id, old) ==
  IF id \notin DOMAIN os THEN os
  ELSE LET x == os[id] IN
       IF x.kind = "get" THEN os
       ELSE IF x.rem = 1 /\ x.stage = "done" THEN Drop(os, {id})
       ELSE SetFn(os, id, [x EXCEPT !.rem = @ - 1, !.old = old])

MemChange(a, r, c, v) ==
  LET k == Key(a, r, c) s == Pend(pend, k) IN
  /\ InSlice(a, r, c)
  /\ \E i \in DOMAIN s :
       /\ Takes(k, v, s, i) = TRUE
       /\ hist' = SetFn(hist, k, Append(Hist(hist, k), v))
       /\ pend' = SetPend(pend, k, RemoveAt(s, i))
       /\ ops' = Applied(Observe(ops, s[i].o, k, s[i].id, Len(Hist(hist, k)) + 1), s[i].id, Cur(k))
  /\ UNCHANGED <<alloc, lc, fset>>

----------------------------------------------------------------------------
(* Completion *)

KeysOf(id) == {k \in DOMAIN pend : \E i \in DOMAIN pend[k] : pend[k][i].id = id}
Silent(k, id) == \A i \in DOMAIN pend[k] : pend[k][i].id = id => MaySilent(k, pend[k][i])
TookEffect(id) == ops[id].rem = 0 \/ \A k \in KeysOf(id) : Silent(k, id)
Without(pd, id) == LET ks == {k \in DOMAIN pd : \E i \in DOMAIN pd[k] : pd[k][i].id = id}
                       f == [k \in DOMAIN pd |-> IF k \in ks THEN SelectSeq(pd[k], LAMBDA e : e.id # id) ELSE pd[k]]
                   IN IF ks = {} THEN pd ELSE Drop(f, {k \in ks : f[k] = <<>>})
RECURSIVE WithoutAll(_, _)
WithoutAll(pd, S) == IF S = {} THEN pd ELSE LET id == CHOOSE x \in S : TRUE IN WithoutAll(Without(pd, id), S \ {id})

\* what the caller finds in its buffer when operation id is locally complete.  L: the buffer (private origin/destination only)
LocalOK(id, L) ==
  LET x == ops[id] IN
  IF x.kind # "get" THEN L = x.L
  ELSE /\ lc = 0 \/ x.W = {}
       /\ IF x.la >= 0
          THEN /\ \A k \in KeysOf(id) : \A i \in DOMAIN pend[k] :
                 pend[k][i].id = id => Cur(k) \in Allowed(hist, x, pend[k][i].el)
               /\ Len(L) = Len(x.L)
               /\ \A i \in DOMAIN x.loc : x.loc[i] >= PRIV => L[x.loc[i] - PRIV + 1] \in Allowed(hist, x, i)
               /\ LET hit == {x.loc[i] - PRIV + 1 : i \in DOMAIN x.loc} IN \A j \in DOMAIN L : j \in hit \/ L[j] = x.L[j]
          ELSE /\ Len(L) = Len(x.L)
               /\ \A i \in DOMAIN x.loc : L[x.loc[i] + 1] \in Allowed(hist, x, i)
               /\ LET hit == {x.loc[i] + 1 : i \in DOMAIN x.loc} IN \A j \in DOMAIN L : j \in hit \/ L[j] = x.L[j]

\* a set of operations becomes locally complete; buf maps each to its buffer content
Complete(S, buf) ==
  /\ (\A id \in S : id \in DOMAIN ops /\ ops[id].ok /\ LocalOK(id, buf[id])) = TRUE
  /\ LET gone == {id \in S : ops[id].kind = "get" \/ ops[id].rem = 0}
     IN /\ ops' = [id \in DOMAIN ops \ gone |-> IF id \in S THEN [ops[id] EXCEPT !.stage = "done", !.L = <<>>] ELSE ops[id]]
        /\ pend' = WithoutAll(pend, {id \in gone : ops[id].kind = "get" /\ ops[id].la >= 0})
  /\ UNCHANGED <<alloc, hist, lc, fset>>

Return(id, p, L) == /\ id \in DOMAIN ops /\ ops[id].p = p /\ ops[id].stage = "call" /\ ops[id].nb = 0
                    /\ Complete({id}, (id :> L))
\* an issued nonblocking operation; an out-of-range operation never returns
Issued(id, p) == /\ id \in DOMAIN ops /\ ops[id].p = p /\ ops[id].stage = "call" /\ ops[id].nb = 1 /\ ops[id].ok
                 /\ ops' = [ops EXCEPT ![id].stage = "issued"]
                 /\ UNCHANGED <<alloc, hist, pend, lc, fset>>

Outstanding(p) == {id \in DOMAIN ops : ops[id].p = p /\ ops[id].stage = "issued"}
WaitHandle(p, h, S, buf) == S = {id \in Outstanding(p) : ops[id].h = h} /\ Complete(S, buf)
WaitProc(p, t, S, buf) == S = {id \in Outstanding(p) : ops[id].t = t} /\ Complete(S, buf)
WaitAll(p, S, buf) == S = Outstanding(p) /\ Complete(S, buf)

----------------------------------------------------------------------------
(* Fences *)

Stores(p, t) == {id \in DOMAIN ops : ops[id].p = p /\ ops[id].kind # "get" /\ (t < 0 \/ ops[id].t = t)}
Settle(S) == \* every store in S has taken effect
  /\ (\A id \in S : TookEffect(id)) = TRUE
  /\ LET rest == {id \in S : ops[id].rem > 0} IN
     /\ pend' = WithoutAll(pend, rest)
     /\ ops' = [id \in DOMAIN ops \ {x \in S : ops[x].stage = "done"} |-> IF id \in rest THEN [ops[id] EXCEPT !.rem = 0] ELSE ops[id]]
  /\ UNCHANGED <<alloc, hist, lc>>
\* a fence covers the stores to t whose calls have returned when it is called
FenceCall(p, th, t) == /\ fset' = SetFn(fset, <<p, th>>, {id \in Stores(p, t) : ops[id].stage # "call"})
                       /\ UNCHANGED <<alloc, hist, pend, ops, lc>>
FenceReturn(p, th, t) == /\ <<p, th>> \in DOMAIN fset /\ Settle(fset[<<p, th>>] \cap DOMAIN ops) /\ fset' = Drop(fset, {<<p, th>>})
\* barrier number b of the world returns: everything issued before any process entered it has taken effect
BarrierSettle(b) == Settle({id \in DOMAIN ops : ops[id].kind # "get" /\ ops[id].bar < b}) /\ UNCHANGED fset

----------------------------------------------------------------------------
(* Read-modify-write *)

RmwCall(id, p, t, op, A, c, v, la, lcell, bar) ==
  LET k == Key(A, t, c) IN
  /\ id \notin DOMAIN ops
  /\ LET ok == InSlice(A, t, c)
         e1 == IF ok THEN <<[key |-> k, e |-> Entry(p, IF op = "swap" THEN "s" ELSE "r", v, id, 1, Before(p, k, "r"), 0)]>> ELSE <<>>
         e2 == IF ok /\ la >= 0 THEN <<[key |-> Key(la, p, lcell), e |-> Entry(p, "m", 0, -id - 1, 1, {}, 0)]>> ELSE <<>>
     IN /\ pend' = AddEntries(pend, e1 \o e2, 1)
        /\ ops' = SetFn(ops, id, [p |-> p, t |-> t, kind |-> "rmw", nb |-> 0, h |-> -1, stage |-> "call", ok |-> ok, rem |-> Len(e1), bar |-> bar,
                    la |-> la, L |-> <<>>, keys |-> <<>>, loc |-> <<>>, idx |-> <<>>, W |-> {}, old |-> 0])
  /\ UNCHANGED <<alloc, hist, lc, fset>>
\* an update that leaves the value as it is: adding nothing, or storing what is there
NoChange(id, r) == \E k \in KeysOf(id) : \E i \in DOMAIN pend[k] :
  LET e == pend[k][i] s == Hist(hist, k) IN
  e.id = id /\ ((e.k = "r" /\ e.v = 0) \/ (e.k = "s" /\ e.v = r)) /\ \E j \in e.ix..Len(s) : s[j] = r
RmwReturn(id, p, r) ==
  /\ id \in DOMAIN ops /\ ops[id].p = p /\ ops[id].ok
  /\ IF ops[id].rem = 0 THEN r = ops[id].old      \* the update has happened and its previous value is returned
     ELSE NoChange(id, r)
  /\ ops' = Drop(ops, {id})
  /\ pend' = WithoutAll(pend, {id, -id - 1})
  /\ UNCHANGED <<alloc, hist, lc, fset>>

----------------------------------------------------------------------------
(* Direct access of a process to its own slice *)

StoreId(p, A) == -1000000 - 100 * p - A
Store(p, A, c, vs) ==
  /\ pend' = AddEntries(pend, [i \in DOMAIN vs |-> [key |-> Key(A, p, c + i - 1), e |-> Entry(p, "p", vs[i], StoreId(p, A), i, {}, 0)]], 1)
  /\ UNCHANGED <<alloc, hist, ops, lc, fset>>
\* stores of p to A are in memory (the end of an access to A)
Stored(p, A) == /\ (\A k \in KeysOf(StoreId(p, A)) : Silent(k, StoreId(p, A))) = TRUE
             /\ pend' = Without(pend, StoreId(p, A))
             /\ UNCHANGED <<alloc, hist, ops, lc, fset>>
Load(p, A, c, vs) == /\ \A i \in DOMAIN vs : vs[i] = Cur(Key(A, p, c + i - 1))
                     /\ UNCHANGED memvars

\* cells that a message operation of p may write before it returns
Expect(p, A, c, n) ==
  /\ pend' = AddEntries(pend, [i \in 1..n |-> [key |-> Key(A, p, c + i - 1), e |-> Entry(p, "m", 0, -2000000 - p, i, {}, 0)]], 1)
  /\ UNCHANGED <<alloc, hist, ops, lc, fset>>
Expected(p) == pend' = Without(pend, -2000000 - p) /\ UNCHANGED <<alloc, hist, ops, lc, fset>>

AllSettled == (\A id \in DOMAIN ops : ops[id].kind = "get" \/ TookEffect(id)) = TRUE
=============================================================================
