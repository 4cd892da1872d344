------------------------------ MODULE TraceCalIO -----------------------------
(* Trace validation of reading and writing calibration files: fs is the     *)
(* model's own file store, never logged by the driver.                      *)
EXTENDS CALIO, Json, IOUtils
VARIABLES t, l, objs, fs
vars == <<t, l, objs, fs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
After(os, e) == IF Has(e, "post") THEN e.post @@ os ELSE os
Kept(os, new, e) == Clause(\A x \in DOMAIN os : x \in Range1(e.w) \/ new[x] = os[x], "operand-mutated")
Exists(p) == p \in DOMAIN fs
Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> KWFClauses(new[e.o])
    [] e.op = "Write" -> (IF Exists(e.path) /\ ~e.args.clobber THEN Clause(e.out = "error", "file-overwritten-without-clobber")
                          ELSE KWriteClauses(e.fmt, os[e.o], e.out)) \cup Kept(os, new, e)
    [] e.op = "Read" -> (IF ~Exists(e.path) THEN Clause(e.out = "error", "read-of-nothing")
                         ELSE KReadClauses(e.fmt, fs[e.path], e.args, e.out, new[e.r])) \cup Kept(os, new, e)
    [] e.op = "ReadMany" -> (LET ps == [k \in 1..Len(e.paths) |-> fs[e.paths[k]]] IN
                            IF e.args.axis = "" THEN KAddClauses(ps[1], ps[2], e.out, new[e.r])
                            ELSE KConcatClauses(ps, e.args.axis, e.out, new[e.r])) \cup Kept(os, new, e)
    [] e.op = "Meta" -> KMetaClauses(fs[e.path], e.out, e.res)
    [] OTHER -> {"malformed"}
FsNext(os, e) ==
  CASE e.op = "Write" /\ e.out = "ok" -> (e.path :> KStored(e.fmt, After(os, e)[e.o])) @@ fs
    [] OTHER -> fs
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs /\ fs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
             /\ fs' = IF e.op = "Malformed" THEN fs ELSE FsNext(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
