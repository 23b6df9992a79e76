------------------------------ MODULE Trace_Decor ------------------------------
(* Checks recorded behaviours (one per line of the file TRACE_FILE) against *)
(* the specification.  See Trace.inc.                                       *)
EXTENDS Decor, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, k, st, bad
Init == /\ t \in 1..Len(Traces)
        /\ k = 0
        /\ st = Start(Traces[t].cfg)
        /\ bad = ""
Next == /\ bad = ""
        /\ k < Len(Traces[t].ops)
        /\ LET j == Judge(st, Traces[t].ops[k + 1]) IN st' = j.st /\ bad' = j.bad
        /\ k' = k + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, k, st, bad>>
\* Total verdicts: a mismatch is reported, with its clause, and ends that behaviour only
Report == bad = "" \/ PrintT("BAD " \o ToJson(<<t, k, bad>>))
=============================================================================
