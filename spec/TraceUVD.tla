------------------------------ MODULE TraceUVD ------------------------------
(* Trace validation: every recorded call of the real UVData API must be an  *)
(* allowed step of UVD.                                                     *)
EXTENDS UVDAccess, Json, IOUtils
VARIABLES t, l, objs
vars == <<t, l, objs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]

Ev(tt, k) == Traces[tt].events[k]
\* registers after the event: the ones it logged replace the old ones
After(os, e) == e.post @@ os

Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> WellFormedClauses(new[e.o])
    [] e.op = "Select" -> SelectClauses(os[e.o], e.args, e.out, new[e.r])
                          \cup Clause(e.o = e.r \/ new[e.o] = os[e.o], "operand-mutated")
    [] e.op = "Conjugate" -> ConjClauses(os[e.o], e.args, e.out, new[e.o])
    [] e.op = "ReorderBlts" -> ReorderBltsClauses(os[e.o], e.args, e.out, new[e.o])
    [] e.op = "ReorderFreqs" -> ReorderFreqsClauses(os[e.o], e.args, e.out, new[e.o])
    [] e.op = "ReorderPols" -> ReorderPolsClauses(os[e.o], e.args, e.out, new[e.o])
    [] e.op = "Add" -> AddClauses(os[e.o], os[e.o2], e.out, new[e.r])
                       \cup Clause(e.o = e.r \/ new[e.o] = os[e.o], "operand-mutated")
                       \cup Clause(new[e.o2] = os[e.o2], "operand-mutated")
                       \cup Clause(e.out # "error" \/ new[e.o] = os[e.o], "failed-call-changed-object")
    [] e.op = "Concat" -> ConcatClauses([k \in 1..Len(e.regs) |-> os[e.regs[k]]], e.args.axis, e.out, new[e.r])
                          \cup Clause(\A k \in 1..Len(e.regs) : e.regs[k] = e.r \/ SameUpToIds(new[e.regs[k]], os[e.regs[k]]), "operand-mutated")
                          \cup Clause(e.out # "error" \/ \A k \in 1..Len(e.regs) : SameUpToIds(new[e.regs[k]], os[e.regs[k]]), "failed-call-changed-object")
    [] e.op = "Get" -> GetClauses(os[e.o], e.args, e.out, e.res) \cup Clause(new[e.o] = os[e.o], "operand-mutated")
    [] e.op = "Index" -> IndexClauses(os[e.o], e.args, e.out, e.res)
    [] e.op = "List" -> ListClauses(os[e.o], e.args, e.out, e.res)
    [] e.op = "Set" -> SetClauses(os[e.o], e.args, e.out, new[e.o])
    \* an ill-formed request: refused, nothing changes
    [] e.op = "Refused" -> Clause(e.out = "error", "ill-formed-request-accepted") \cup Clause(new[e.o] = os[e.o], "failed-call-changed-object")
    [] OTHER -> {"malformed"}

Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")

Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
