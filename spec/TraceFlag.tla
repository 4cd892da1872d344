------------------------------ MODULE TraceFlag ------------------------------
(* Trace validation of recorded calls of the real UVFlag API against FLAG.  *)
EXTENDS FLAG, Json, IOUtils
VARIABLES t, l, objs
vars == <<t, l, objs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
After(os, e) ==
  LET p == IF Has(e, "post") THEN e.post @@ os ELSE os
  IN IF e.op = "Write" /\ e.out = "ok" THEN ("f:" \o e.path) :> os[e.o] @@ p ELSE p
Mut(os, new, e) == Clause(e.o = e.r \/ new[e.o] = os[e.o], "operand-mutated")
Mut2(os, new, e) == Mut(os, new, e) \cup Clause(new[e.o2] = os[e.o2], "operand-mutated")
Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> FWFClauses(new[e.o])
    [] e.op = "Like" -> {}
    [] e.op = "Select" -> FSelectClauses(os[e.o], e.args, e.out, new[e.r], e.o = e.r) \cup Mut(os, new, e)
    [] e.op = "Add" -> FAddClauses(os[e.o], os[e.o2], e.args.axis, e.out, new[e.r]) \cup Mut2(os, new, e)
                       \cup Clause(e.out # "error" \/ new[e.o] = os[e.o], "failed-call-changed-object")
    [] e.op = "Or" -> FOrClauses(os[e.o], os[e.o2], e.out, new[e.r]) \cup Mut2(os, new, e)
    [] e.op = "Combine" -> CombineClauses([k \in 1..(Len(e.others) + 1) |-> IF k = 1 THEN os[e.o] ELSE os[e.others[k - 1]]], e.args, e.out, new[e.r]) \cup Mut(os, new, e)
                           \cup Clause(\A k \in 1..Len(e.others) : new[e.others[k]] = os[e.others[k]], "operand-mutated")
                           \cup Clause(e.out # "error" \/ new[e.o] = os[e.o], "failed-call-changed-object")
    [] e.op = "CollapsePol" -> CollapsePolClauses(os[e.o], e.args, e.out, new[e.r])
    [] e.op = "ToWaterfall" -> ToWaterfallClauses(os[e.o], e.args, e.out, new[e.r])
    [] e.op = "ToBaseline" -> ToBaselineClauses(os[e.o], os[e.o2], e.args, e.out, new[e.r]) \cup Mut2(os, new, e)
    [] e.op = "ToAntenna" -> ToAntennaClauses(os[e.o], os[e.o2], e.args, e.out, new[e.r]) \cup Mut2(os, new, e)
    [] e.op = "ToFlag" -> ToFlagClauses(os[e.o], e.args, e.out, new[e.r])
    [] e.op = "ToMetric" -> ToMetricClauses(os[e.o], e.args, e.out, new[e.r])
    [] e.op = "From" -> FromClauses(os[e.o2], e.args, e.out, new[e.r]) \cup Clause(new[e.o2] = os[e.o2], "operand-mutated")
    [] e.op = "F2W" -> F2WClauses(os[e.o2], e.args, e.out, e.res) \cup Clause(new[e.o2] = os[e.o2], "operand-mutated")
    [] e.op = "Poke" -> Clause(\A x \in DOMAIN e.seen : e.seen[x] = os[x], "shared-arrays")
    [] e.op = "Write" -> FWriteClauses(os[e.o], ("f:" \o e.path) \in DOMAIN os, e.args, e.out, new[e.o])
    [] e.op = "Read" -> FReadClauses([k \in 1..Len(e.paths) |-> os["f:" \o e.paths[k]]], e.names, e.out, new[e.r])
    [] e.op = "Refused" -> Clause(e.out = "error", "ill-formed-request-accepted") \cup Clause(new[e.o] = os[e.o], "failed-call-changed-object")
    [] OTHER -> {"malformed"}
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
