---------------------------- MODULE ArmciGroups -----------------------------
(***************************************************************************)
(* Process groups.  Group 0 is the world.  grp[<<g, p>>] is the member     *)
(* sequence process p knows group g by (absolute ids in rank order); <<>>  *)
(* on a process that is not a member.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  world,   \* number of processes
  grp,     \* <<group, process>> -> member sequence
  gdef,    \* process -> default group
  gin      \* <<group, process>> -> <<parent, colour, key>> of a split in progress
groupvars == <<world, grp, gdef, gin>>

GGet(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
GPut(f, k, v) == (k :> v) @@ f

WorldSeq == [i \in 1..world |-> i - 1]
Members(g, p) == IF g = 0 THEN WorldSeq ELSE GGet(grp, <<g, p>>, <<>>)
DefaultOf(p) == GGet(gdef, p, 0)
GroupsInit == world = 0 /\ grp = <<>> /\ gdef = <<>> /\ gin = <<>>

RankIn(mem, p) == IF \E i \in DOMAIN mem : mem[i] = p THEN (CHOOSE i \in DOMAIN mem : mem[i] = p) - 1 ELSE -1

\* what the queries on a group must answer on process p
InfoOK(mem, p, rrc, rank, size, abs) ==
  IF RankIn(mem, p) >= 0
  THEN rrc = 0 /\ rank = RankIn(mem, p) /\ size = Len(mem) /\ abs = mem
  ELSE rrc # 0 /\ rank < 0 /\ abs = <<>>

\* create: the list names ranks of the parent
CreateCall(g, P, p, list) ==
  LET pm == Members(P, p) mem == [i \in DOMAIN list |-> pm[list[i] + 1]] IN
  /\ \A i \in DOMAIN list : list[i] >= 0 /\ list[i] < Len(pm)
  /\ grp' = GPut(grp, <<g, p>>, IF RankIn(mem, p) >= 0 THEN mem ELSE <<>>)
  /\ UNCHANGED <<world, gdef, gin>>
DupCall(g, P, p) == grp' = GPut(grp, <<g, p>>, Members(P, p)) /\ UNCHANGED <<world, gdef, gin>>
SplitCall(g, P, p, color, key) ==
  /\ gin' = GPut(gin, <<g, p>>, <<P, color, key, Members(P, p)>>)
  /\ grp' = GPut(grp, <<g, p>>, <<-1>>)
  /\ UNCHANGED <<world, gdef>>

\* members of the parent with the colour of p, by key, ties by parent rank
SplitResult(g, p) ==
  LET me == gin[<<g, p>>] pm == me[4]
      S == {i \in DOMAIN pm : gin[<<g, pm[i]>>][2] = me[2]}
      k(i) == gin[<<g, pm[i]>>][3]
      before(i, j) == k(i) < k(j) \/ (k(i) = k(j) /\ i < j)
      pos(i) == Cardinality({j \in S : before(j, i)}) + 1
  IN IF me[2] = -1 THEN <<>> ELSE [q \in 1..Cardinality(S) |-> pm[CHOOSE i \in S : pos(i) = q]]

GroupReturn(g, p, rrc, rank, size, abs) ==
  IF Members(g, p) = <<-1>>
  THEN LET pm == gin[<<g, p>>][4] IN
       /\ \A i \in DOMAIN pm : <<g, pm[i]>> \in DOMAIN gin        \* collective on the parent
       /\ LET mem == SplitResult(g, p) IN
          /\ InfoOK(mem, p, rrc, rank, size, abs)
          /\ grp' = GPut(grp, <<g, p>>, mem)
       /\ UNCHANGED <<world, gdef, gin>>
  ELSE InfoOK(Members(g, p), p, rrc, rank, size, abs) /\ UNCHANGED groupvars
Query(g, p, rrc, rank, size, abs) == InfoOK(Members(g, p), p, rrc, rank, size, abs) /\ UNCHANGED groupvars
SetDefault(g, p) == gdef' = GPut(gdef, p, g) /\ UNCHANGED <<world, grp, gin>>
FreeGroup(g, p) == grp' = [x \in DOMAIN grp \ {<<g, p>>} |-> grp[x]] /\ UNCHANGED <<world, gdef, gin>>   \* others may still be returning from the split
=============================================================================
