---------------------------- MODULE ConflictTree ----------------------------
(***************************************************************************)
(* The conflict tree: a set of disjoint closed intervals <<lo, hi>>.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES civ      \* the intervals stored
treevars == <<civ>>

TreeInit == civ = {}
Meets(a, b) == a[1] <= b[2] /\ b[1] <= a[2]

NewTree == civ' = {}
\* an insert fails (r = 1) exactly on an intersection and then changes nothing
InsertIv(iv, r) == LET hit == \E x \in civ : Meets(x, iv) IN
  /\ r = (IF hit THEN 1 ELSE 0)
  /\ civ' = IF hit THEN civ ELSE civ \cup {iv}
\* locate returns one of the stored intervals that intersect, or nothing exactly if there is none
LocateIv(iv, f) ==
  /\ (CASE f = <<>> -> \A x \in civ : ~Meets(x, iv)
       [] Len(f) = 1 -> \E x \in civ : Meets(x, iv)
       [] OTHER -> f \in civ /\ Meets(f, iv)) = TRUE
  /\ UNCHANGED civ

\* shape: a node is <<lo, hi, height, parent link right, left, right>>, an empty tree <<>>
RECURSIVE Height(_)
Height(t) == IF t = <<>> THEN 0 ELSE LET a == Height(t[5]) b == Height(t[6]) IN 1 + (IF a > b THEN a ELSE b)
RECURSIVE InOrder(_)
InOrder(t) == IF t = <<>> THEN <<>> ELSE InOrder(t[5]) \o <<<<t[1], t[2]>>>> \o InOrder(t[6])
RECURSIVE Balanced(_)
Balanced(t) == t = <<>> \/ (/\ t[4] = 1 /\ t[3] = Height(t)
                            /\ Height(t[5]) - Height(t[6]) \in {-1, 0, 1}
                            /\ Balanced(t[5]) /\ Balanced(t[6]))
WalkOK(t) ==
  LET s == InOrder(t) IN
  /\ Balanced(t) = TRUE
  /\ Len(s) = Cardinality(civ) /\ {s[i] : i \in DOMAIN s} = civ
  /\ \A i \in 1..(Len(s) - 1) : s[i][2] < s[i + 1][1]
  /\ UNCHANGED civ

\* the overlap check of vector operations: segments of s bytes at the addresses q
OverlapOK(s, q, r) ==
  /\ (r = 1) <=> (\E i, j \in DOMAIN q : i < j /\ Meets(<<q[i], q[i] + s - 1>>, <<q[j], q[j] + s - 1>>))
  /\ UNCHANGED civ
=============================================================================
