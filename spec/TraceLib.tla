------------------------------ MODULE TraceLib ------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
(* the recorded events, one per line *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* one line of output per event that the specification cannot explain *)
Reject(id, why) == PrintT("REJECT|" \o id \o "|" \o ToString(why))
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(x, y) == IF x > y THEN x ELSE y
MinOf(x, y) == IF x < y THEN x ELSE y
Near(x, y, tol) == x - y <= tol /\ y - x <= tol      \* |x|,|y| <= 10^9
=============================================================================
