------------------------------ MODULE TraceCal ------------------------------
(* Trace validation of recorded calls of the real UVCal API against CAL.    *)
EXTENDS CAL, Json, IOUtils
VARIABLES t, l, objs
vars == <<t, l, objs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
After(os, e) == IF Has(e, "post") THEN e.post @@ os ELSE os
Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> KWFClauses(new[e.o])
    [] e.op = "Select" -> KSelectClauses(os[e.o], e.args, e.out, new[e.r]) \cup Clause(e.o = e.r \/ new[e.o] = os[e.o], "operand-mutated")
    [] e.op = "Reorder" -> KReorderClauses(os[e.o], e.args, e.out, new[e.o])
    [] e.op = "Get" -> KGetClauses(os[e.o], e.args, e.out, e.res) \cup Clause(new[e.o] = os[e.o], "operand-mutated")
    [] e.op = "Info" -> KInfoClauses(os[e.o], e.args, e.out, e.res) \cup Clause(new[e.o] = os[e.o], "operand-mutated")
    [] e.op = "Add" -> KAddClauses(os[e.o], os[e.o2], e.out, new[e.r])
                       \cup Clause(e.o = e.r \/ new[e.o] = os[e.o], "operand-mutated")
                       \cup Clause(new[e.o2] = os[e.o2], "operand-mutated")
                       \cup Clause(e.out # "error" \/ new[e.o] = os[e.o], "failed-call-changed-object")
    [] e.op = "Concat" -> KConcatClauses([k \in 1..Len(e.regs) |-> os[e.regs[k]]], e.args.axis, e.out, new[e.r])
                          \cup Clause(\A k \in 1..Len(e.regs) : e.regs[k] = e.r \/ KSameUpToIds(new[e.regs[k]], os[e.regs[k]]), "operand-mutated")
                          \cup Clause(e.out # "error" \/ KSameUpToIds(new[e.r], os[e.regs[1]]), "failed-call-changed-object")
    [] e.op = "ToFlex" -> ToFlexClauses(os[e.o], e.out, new[e.o])
    [] e.op = "FromFlex" -> FromFlexClauses(os[e.o], e.args, e.out, new[e.o])
    [] e.op = "ToGain" -> ToGainClauses(os[e.o], e.args, e.out, new[e.o])
    [] e.op = "Refused" -> Clause(e.out = "error", "ill-formed-request-accepted") \cup Clause(new[e.o] = os[e.o], "failed-call-changed-object")
    [] OTHER -> {"malformed"}
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
