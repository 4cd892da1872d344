----------------------------- MODULE TraceRed -----------------------------
(* Trace validation of redundancy operations. *)
EXTENDS UVDRed, Json, IOUtils
VARIABLES t, l, objs
vars == <<t, l, objs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
After(os, e) == IF e.op = "Large" THEN os ELSE e.post @@ os
Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> WellFormedClauses(new[e.o])
    [] e.op = "Red" -> RedClauses(os[e.o], e.args, e.out, e.res, new[e.o])
    [] e.op = "Compress" -> CompressClauses(os[e.o], e.args, e.out, new[e.r])
                            \cup IF e.r = e.o \/ e.out = "error" THEN {} ELSE Clause(Diff(os[e.o], new[e.o], {}) = {}, "source-changed")
    [] e.op = "Inflate" -> InflateClauses(os[e.o], e.args, e.out, new[e.o])
    [] e.op = "Large" -> LargeClauses(e.args, e.out, e.res)
    [] OTHER -> {"malformed"}
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
