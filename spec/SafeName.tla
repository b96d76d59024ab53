------------------------------ MODULE SafeName ------------------------------
(***************************************************************************)
(* What may be derived from a source URI as destination when none is       *)
(* given: a local path stays as it is; otherwise one relative name that is *)
(* neither hidden nor special.  c: the name as character classes (w word,  *)
(* o other, and / . _ - themselves).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Why(r) == CASE r.refused -> IF r.local \/ r.words > 0 THEN "refused" ELSE ""
            [] ~r.tail -> "remainder lost"
            [] r.local -> IF r.same THEN "" ELSE "local path changed"
            [] \E k \in DOMAIN r.c : r.c[k] = "/" -> "not a single name"
            [] \E k \in DOMAIN r.c : r.c[k] = "o" -> "unsafe character"
            [] r.c = <<>> -> "empty"
            [] r.c # <<>> /\ r.c[1] = "." -> "hidden or special"
            [] OTHER -> ""
Init == i \in DOMAIN Log
Next == i > 0 /\ i' = 0 /\ PrintT(ToJson([i |-> Log[i].i, bad |-> Why(Log[i])]))
Spec == Init /\ [][Next]_i
=============================================================================
