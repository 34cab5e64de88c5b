----------------------------- MODULE ArmciLife ------------------------------
(***************************************************************************)
(* Initialization and finalization of each process, topology queries,      *)
(* strided pack and unpack.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Shapes

VARIABLES
  icount,  \* process -> number of inits not yet matched by a finalize
  tree     \* process -> <<up, left, right>> as answered by bintree
lifevars == <<icount, tree>>

LGet(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
LPut(f, k, v) == (k :> v) @@ f
LifeInit == icount = <<>> /\ tree = <<>>
Inits(p) == LGet(icount, p, 0)

InitCall(p) == UNCHANGED lifevars
InitReturn(p, rc, i, me, np, n) ==
  /\ rc = 0 /\ i = 1 /\ me = p /\ np = n
  /\ icount' = LPut(icount, p, Inits(p) + 1) /\ UNCHANGED tree
\* only the finalize that matches the first init ends the library; further ones do nothing
FinalizeCall(p) == UNCHANGED lifevars
FinalizeReturn(p, rc, i) ==
  /\ rc = 0
  /\ icount' = LPut(icount, p, IF Inits(p) > 0 THEN Inits(p) - 1 ELSE 0)
  /\ i = IF Inits(p) > 1 THEN 1 ELSE 0
  /\ UNCHANGED tree
InitializedQuery(p, i) == i = (IF Inits(p) > 0 THEN 1 ELSE 0) /\ UNCHANGED lifevars

----------------------------------------------------------------------------
(* domains: a consistent partition of the processes *)
TopologyOK(p, n, me, np, cnt, myid, id, same, node, nprocs, loc) ==
  LET P == 0..(n - 1) at(s, q) == s[q + 1] IN
  /\ me = p /\ np = n
  /\ Len(id) = n /\ Len(same) = n /\ Len(node) = n /\ Len(nprocs) = n /\ Len(loc) = n
  /\ cnt >= 1 /\ cnt <= n
  /\ \A q \in P : at(id, q) >= 0 /\ at(id, q) < cnt
  /\ \A d \in 0..(cnt - 1) : \E q \in P : at(id, q) = d                 \* no empty domain
  /\ myid = at(id, p)
  /\ \A q \in P : (at(same, q) = 1) <=> (at(id, q) = myid)
  /\ \A q \in P : (at(node, q) = 1) <=> (at(same, q) = 1)
  /\ \A d \in 0..(cnt - 1) : at(nprocs, d) = Cardinality({q \in P : at(id, q) = d})
  /\ \A q \in P : at(loc, q) >= 0                                       \* q is found among the members of its domain
BintreeAnswer(p, n, s, root, up, left, right) ==
  /\ IF s = "n" THEN root = p /\ up = -1 /\ left = -1 /\ right = -1      \* a node holds one process
     ELSE /\ root = 0 /\ up \in -1..(n - 1) /\ left \in -1..(n - 1) /\ right \in -1..(n - 1)
          /\ (p = root) <=> (up = -1)
          /\ left >= 0 => left # right /\ left # p
          /\ right >= 0 => right # p
          /\ \A q \in DOMAIN tree : /\ (q = up) => p \in {tree[q][2], tree[q][3]}
                                    /\ (q \in {left, right}) => tree[q][1] = p
                                    /\ (tree[q][1] = p) => q \in {left, right}
                                    /\ (p \in {tree[q][2], tree[q][3]}) => up = q
  /\ tree' = IF s = "n" THEN tree ELSE LPut(tree, p, <<up, left, right>>)
  /\ UNCHANGED icount
RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup {c \in DOMAIN tree : tree[c][1] \in S}, k - 1)
TreeSpans(n) == (DOMAIN tree = 0..(n - 1)) => Reach({0}, n) = 0..(n - 1)

(* pack (w = 1): packed buffer from strided region; unpack (w = 0): the reverse *)
PackOK(w, lo, st, cnt, X0, Y0, X1, Y1) ==
 (LET N == StridedSize(cnt) pos(i) == lo + StridedOff(i - 1, cnt, st) + 1 IN
  IF w = 1 THEN X1 = X0 /\ \A j \in DOMAIN Y1 : Y1[j] = IF j <= N THEN X0[pos(j)] ELSE Y0[j]
  ELSE Y1 = Y0 /\ LET hit == {pos(i) : i \in 1..N} IN
         /\ \A i \in 1..N : X1[pos(i)] = Y0[i]
         /\ \A j \in DOMAIN X1 : j \in hit \/ X1[j] = X0[j]) = TRUE
=============================================================================
