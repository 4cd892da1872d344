------------------------------ MODULE TraceBeam ------------------------------
(* Trace validation of recorded calls of the real UVBeam API against BEAM.  *)
EXTENDS BEAM, Json, IOUtils
VARIABLES t, l, objs
vars == <<t, l, objs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
\* "f:<path>" is the content of a file: the object that was last written to it
After(os, e) ==
  LET p == IF Has(e, "post") THEN e.post @@ os ELSE os
  IN IF e.op = "Write" /\ e.out = "ok" THEN ("f:" \o e.path) :> os[e.o] @@ p ELSE p
Mut(os, new, e) == Clause(new[e.o] = os[e.o], "operand-mutated")
Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> BWFClauses(new[e.o])
    [] e.op = "Select" -> BSelectClauses(os[e.o], e.args, e.out, new[e.r], e.o = e.r) \cup (IF e.o = e.r THEN {} ELSE Mut(os, new, e))
    [] e.op = "Add" -> BAddClauses(os[e.o], os[e.o2], e.out, new[e.r])
                       \cup Clause(e.o = e.r \/ new[e.o] = os[e.o], "operand-mutated")
                       \cup Clause(new[e.o2] = os[e.o2], "operand-mutated")
                       \cup Clause(e.out # "error" \/ new[e.o] = os[e.o], "failed-call-changed-object")
    [] e.op = "ToPower" -> ToPowerClauses(os[e.o], e.args, e.out, new[e.r]) \cup (IF e.o = e.r THEN {} ELSE Mut(os, new, e))
    [] e.op = "ToStokes" -> ToStokesClauses(os[e.o], e.out, new[e.r]) \cup (IF e.o = e.r THEN {} ELSE Mut(os, new, e))
    [] e.op = "Peak" -> PeakClauses(os[e.o], e.out, new[e.r])
    [] e.op = "Interp" -> InterpClauses(os[e.o], e.args, e.out, e.res) \cup Mut(os, new, e)
    [] e.op = "InterpObj" -> InterpObjClauses(os[e.o], e.args, e.out, new[e.r]) \cup Mut(os, new, e)
    [] e.op = "ToHealpix" -> ToHealpixClauses(os[e.o], e.args, e.out, new[e.r]) \cup (IF e.o = e.r THEN {} ELSE Mut(os, new, e))
    [] e.op = "Area" -> AreaClauses(os[e.o], e.args, e.out, e.res) \cup Mut(os, new, e)
    [] e.op = "Write" -> BWriteClauses(os[e.o], ("f:" \o e.path) \in DOMAIN os, e.args, e.out, new[e.o])
    [] e.op = "Read" -> IF ("f:" \o e.path) \notin DOMAIN os THEN Clause(e.out = "error", "missing-file-read") ELSE BReadClauses(os["f:" \o e.path], e.args, e.out, new[e.r])
    [] e.op = "Refused" -> Clause(e.out = "error", "ill-formed-request-accepted") \cup Clause(new[e.o] = os[e.o], "failed-call-changed-object")
    [] OTHER -> {"malformed"}
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
