----------------------------- MODULE TraceMath -----------------------------
(* Trace validation of arithmetic and flexible polarization. *)
EXTENDS UVDMath, Json, IOUtils
VARIABLES t, l, objs
vars == <<t, l, objs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
After(os, e) == e.post @@ os
Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> WellFormedClauses(new[e.o])
    [] e.op = "Sum" -> SumClauses(os[e.o], os[e.b], e.args, e.out, new[e.r], e.xk)
                       \cup Clause(new[e.b] = os[e.b] /\ (e.r = e.o \/ new[e.o] = os[e.o]), "source-changed")
    [] e.op = "Eq" -> EqClauses(os[e.o], e.out, new[e.o])
    [] e.op = "Norm" -> NormClauses(os[e.o], e.args, e.out, new[e.o])
    [] e.op = "ToFlex" -> ToFlexClauses(os[e.o], e.out, new[e.o])
    [] e.op = "Unflex" -> UnflexClauses(os[e.o], e.args, e.out, new[e.o])
    [] OTHER -> {"malformed"}
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
