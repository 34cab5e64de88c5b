------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* What an ARMCI transfer descriptor means.  A descriptor denotes a        *)
(* sequence of elements; element i connects one cell of the target's       *)
(* memory with one cell of the origin's buffer.                            *)
(*   contiguous   : one block of n cells                                   *)
(*   strided      : base + sum(i_k * stride_k), 0 <= i_k < count_k, the    *)
(*                  innermost index (k = 0) running fastest                *)
(*   vector       : a list of segments <<allocation, target, local, len>>  *)
(* Offsets are in cells.  Sequences are 1-based, cells are 0-based.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Prod(_, _)
Prod(cnt, k) == IF k = 0 THEN 1 ELSE cnt[k] * Prod(cnt, k - 1)

\* digit k (1 = innermost) of element number i (0-based) in the mixed-radix system given by cnt
Digit(i, cnt, k) == (i \div Prod(cnt, k - 1)) % cnt[k]

RECURSIVE StrideSum(_, _, _, _)
StrideSum(i, cnt, str, k) == IF k <= 1 THEN 0 ELSE Digit(i, cnt, k) * str[k - 1] + StrideSum(i, cnt, str, k - 1)

\* offset of element i (0-based) of a strided block
StridedOff(i, cnt, str) == (IF Len(cnt) = 0 THEN 0 ELSE Digit(i, cnt, 1)) + StrideSum(i, cnt, str, Len(cnt))
StridedSize(cnt) == Prod(cnt, Len(cnt))

\* the elements of a strided (or, with one count, contiguous) transfer, as <<allocation, target cell, local cell>>
StridedElems(A, ro, rs, lo, ls, cnt) ==
  [i \in 1..StridedSize(cnt) |-> <<A, ro + StridedOff(i - 1, cnt, rs), lo + StridedOff(i - 1, cnt, ls)>>]

RECURSIVE VectorElems(_)
VectorElems(segs) == IF segs = <<>> THEN <<>>
  ELSE LET s == Head(segs) IN [i \in 1..s[4] |-> <<s[1], s[2] + i - 1, s[3] + i - 1>>] \o VectorElems(Tail(segs))

(***************************************************************************)
(* Accumulate: the contribution of element i, given the origin values vs   *)
(* and the scale sc = <<re numerator, re denominator, im num, im den>>.    *)
(* For the complex types (at = "c", "z") cells come in (re, im) pairs.     *)
(***************************************************************************)
Scaled(v, n, d) == IF v % d = 0 THEN (v \div d) * n ELSE (v * n) \div d
Contribution(at, sc, vs, i) ==
  IF at \in {"c", "z"}
  THEN IF i % 2 = 1
       THEN Scaled(vs[i], sc[1], sc[2]) - Scaled(vs[i + 1], sc[3], sc[4])
       ELSE Scaled(vs[i], sc[1], sc[2]) + Scaled(vs[i - 1], sc[3], sc[4])
  ELSE Scaled(vs[i], sc[1], sc[2])
=============================================================================
