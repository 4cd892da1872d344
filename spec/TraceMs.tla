------------------------------ MODULE TraceMs ------------------------------
(* Trace validation of measurement sets: fs is the model's own file store. *)
EXTENDS UVDMs, Json, IOUtils
VARIABLES t, l, objs, fs
vars == <<t, l, objs, fs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
After(os, e) == IF Has(e, "post") THEN e.post @@ os ELSE os
Kept(os, new, e) == Clause(\A x \in DOMAIN os : x \in Range1(e.w) \/ new[x] = os[x], "operand-mutated")
Exists(p) == p \in DOMAIN fs
Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> WellFormedClauses(new[e.o])
    [] e.op = "WriteMs" -> (IF Exists(e.path) /\ ~e.args.clobber THEN Clause(e.out = "error", "file-overwritten-without-clobber")
                            ELSE MsWriteClauses(os[e.o], e.args, e.out, new[e.o])) \cup Kept(os, new, e)
    [] e.op = "ReadMs" -> (IF ~Exists(e.path) THEN Clause(e.out = "error", "read-of-nothing")
                           ELSE MsReadClauses(fs[e.path], e.args, e.out, new[e.r])) \cup Kept(os, new, e)
    [] OTHER -> {"malformed"}
FsNext(os, e) ==
  IF e.op = "WriteMs" /\ e.out = "ok" THEN (e.path :> MsEntry(After(os, e)[e.o], e.args)) @@ fs ELSE fs
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs /\ fs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
             /\ fs' = IF e.op = "Malformed" THEN fs ELSE FsNext(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
