------------------------------ MODULE ArmciMsg ------------------------------
(***************************************************************************)
(* Two-sided messages and collectives of the message layer.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

VARIABLES
  chan,    \* <<from, to, tag>> -> sequence of messages sent and not yet received
  cnum,    \* <<group, process>> -> number of collectives entered
  cin,     \* <<group, number, process>> -> the input record
  sbuf     \* process -> contents of the buffer it is sending, or has sent last
msgvars == <<chan, cnum, cin, sbuf>>

MGet(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
MPut(f, k, v) == (k :> v) @@ f

MsgInit == chan = <<>> /\ cnum = <<>> /\ cin = <<>> /\ sbuf = <<>>

SendCall(p, t, tag, v) == chan' = MPut(chan, <<p, t, tag>>, Append(MGet(chan, <<p, t, tag>>, <<>>), v)) /\ sbuf' = MPut(sbuf, p, v) /\ UNCHANGED <<cnum, cin>>
\* sending leaves the buffer as it was
SendReturn(p, v) == MGet(sbuf, p, v) = v /\ UNCHANGED msgvars
\* oldest unreceived message of that sender; rest of the buffer (old) unchanged
RecvReturn(p, from, tag, len, v, old) ==
  LET q == MGet(chan, <<from, p, tag>>, <<>>) IN
  /\ q # <<>>
  /\ LET m == Head(q) IN
     /\ len \in {4 * Len(m), -4}
     /\ Len(m) <= Len(v)
     /\ \A i \in DOMAIN v : v[i] = IF i <= Len(m) THEN m[i] ELSE old[i]
  /\ chan' = MPut(chan, <<from, p, tag>>, Tail(q))
  /\ UNCHANGED <<cnum, cin, sbuf>>

----------------------------------------------------------------------------
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
\* bitwise operations on two's complement integers
Norm(x) == IF x >= 0 THEN x ELSE -(x + 1)
BitAnd(x, y) ==
  IF x >= 0 /\ y >= 0 THEN x & y
  ELSE IF x < 0 /\ y < 0 THEN -((Norm(x) | Norm(y)) + 1)
  ELSE IF x < 0 THEN y - (y & Norm(x)) ELSE x - (x & Norm(y))
BitOr(x, y) == -(BitAnd(-(x + 1), -(y + 1)) + 1)

RECURSIVE Fold(_, _, _)
Fold(F(_, _), s, i) == IF i = 1 THEN s[1] ELSE F(Fold(F, s, i - 1), s[i])
Plus(a, b) == a + b
Times(a, b) == a * b
Bool(b) == IF b THEN 1 ELSE 0
LAnd(a, b) == Bool(a # 0 /\ b # 0)
LOr(a, b) == Bool(a # 0 \/ b # 0)

\* reduction of the sequence s (one value per member)
Reduce(op, s) ==
  LET S == {s[i] : i \in DOMAIN s} IN
  CASE op = "+" -> Fold(Plus, s, Len(s))
    [] op = "*" -> Fold(Times, s, Len(s))
    [] op = "max" -> MaxOf(S)
    [] op = "min" -> MinOf(S)
    [] op = "absmax" -> MaxOf({Abs(x) : x \in S})
    [] op = "absmin" -> MinOf({Abs(x) : x \in S})
    [] op \in {"or", "bor", "|"} -> Fold(BitOr, s, Len(s))
    [] op \in {"band", "&"} -> Fold(BitAnd, s, Len(s))
    [] op \in {"land", "&&"} -> IF Len(s) = 1 THEN s[1] ELSE Bool(\A x \in S : x # 0)
    [] op \in {"lor", "||"} -> IF Len(s) = 1 THEN s[1] ELSE Bool(\E x \in S : x # 0)

CollCall(p, g, rec) ==
  LET k == MGet(cnum, <<g, p>>, 0) + 1 IN
  /\ cnum' = MPut(cnum, <<g, p>>, k)
  /\ cin' = MPut(cin, <<g, k, p>>, rec)
  /\ UNCHANGED <<chan, sbuf>>

CollResultOK(p, g, mem, v) ==
  LET k == MGet(cnum, <<g, p>>, 0)
      me == cin[<<g, k, p>>]
      sc == IF me.s = "n" THEN <<p>> ELSE mem
      in(q) == cin[<<g, k, q>>]
      have(q) == <<g, k, q>> \in DOMAIN cin
  IN CASE me.k = "bcast" ->
            IF me.s = "n" THEN v = me.v ELSE have(me.root) /\ v = in(me.root).v
       [] me.k = "gop" ->
            /\ \A i \in DOMAIN sc : have(sc[i])
            /\ v = [j \in DOMAIN me.v |-> Reduce(me.op, [i \in DOMAIN sc |-> in(sc[i]).v[j]])]
       [] me.k = "sel" ->
            /\ \A i \in DOMAIN sc : have(sc[i])
            /\ LET C == {sc[i] : i \in {j \in DOMAIN sc : in(sc[j]).root # 0}}     \* the contributors
                   keys == {in(q).v[1] : q \in C}
                   best == IF me.op = "min" THEN MinOf(keys) ELSE MaxOf(keys)
               IN C # {} => v[1] = best /\ \E q \in C : in(q).v[1] = best /\ v = in(q).v
       [] OTHER -> FALSE
CollReturn(p, g, mem, v, over) == over = 0 /\ CollResultOK(p, g, mem, v) = TRUE /\ UNCHANGED msgvars
=============================================================================
