----------------------------- MODULE TraceAvg -----------------------------
(* Trace validation of averaging.                      *)
EXTENDS UVDAvg, Json, IOUtils
VARIABLES t, l, objs
vars == <<t, l, objs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
After(os, e) == e.post @@ os
\* averaged times of different baselines may differ by rounding: then there are more times than ticks
Wf(o) == IF o.meta.Ntimes > Cardinality({Blts(o)[i].t : i \in 1..NBlt(o)}) THEN WellFormedClauses(o) \ {"wf-Ntimes", "wf-rectangularity", "wf-blt-order"}
         ELSE WellFormedClauses(o)
Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> WellFormedClauses(new[e.o])
    [] e.op = "Down" -> DownClauses(os[e.o], e.args, e.out, new[e.o]) \cup IF e.out = "ok" THEN Wf(new[e.o]) ELSE {}
    [] e.op = "Up" -> UpClauses(os[e.o], e.args, e.out, new[e.o]) \cup IF e.out = "ok" THEN Wf(new[e.o]) ELSE {}
    [] e.op = "FreqAvg" -> FreqAvgClauses(os[e.o], e.args, e.out, new[e.o]) \cup IF e.out = "ok" THEN Wf(new[e.o]) ELSE {}
    [] e.op = "Nothing" -> Clause(new[e.o] = os[e.o] /\ e.out = "ok", "noop-changed-object")
    [] OTHER -> {"malformed"}
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
