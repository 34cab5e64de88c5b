-------------------------------- MODULE Emit --------------------------------
(* Programs found by TLC are printed as JSON, one per line, behind an @.   *)
EXTENDS Integers, Sequences, TLC, Json
Out(x) == PrintT("@" \o ToJson(x))
=============================================================================
