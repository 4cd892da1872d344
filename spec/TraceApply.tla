------------------------------ MODULE TraceApply -----------------------------
(* Trace validation of recorded uvcalibrate / apply_uvflag calls.           *)
EXTENDS APPLY, Json, IOUtils
VARIABLES t, l, objs
vars == <<t, l, objs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
After(os, e) == IF Has(e, "post") THEN e.post @@ os ELSE os
Mut2(os, new, e) == Clause(e.o = e.r \/ new[e.o] = os[e.o], "operand-mutated") \cup Clause(new[e.o2] = os[e.o2], "operand-mutated")
Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> {}
    [] e.op = "Calibrate" -> CalibrateClauses(os[e.o], os[e.o2], e.args, e.out, new[e.r]) \cup Mut2(os, new, e)
    [] e.op = "ApplyFlags" -> ApplyClauses(os[e.o], os[e.o2], e.args, e.out, new[e.r]) \cup Mut2(os, new, e)
    [] OTHER -> {"malformed"}
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
