------------------------------ MODULE TraceIO ------------------------------
(* Trace validation of reading and writing files: fs is the model's own     *)
(* file store, never logged by the driver.                                  *)
EXTENDS UVDForm, Json, IOUtils
VARIABLES t, l, objs, fs
vars == <<t, l, objs, fs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
After(os, e) == IF Has(e, "post") THEN e.post @@ os ELSE os
Kept(os, new, e) == Clause(\A x \in DOMAIN os : x \in Range1(e.w) \/ new[x] = os[x], "operand-mutated")

Exists(p) == p \in DOMAIN fs
Clauses(os, e) ==
  LET new == After(os, e) IN
  CASE e.op = "Make" -> WellFormedClauses(new[e.o])
    [] e.op = "Write" -> (IF Exists(e.path) /\ ~e.args.clobber THEN Clause(e.out = "error", "file-overwritten-without-clobber")
                          ELSE WriteClauses(e.fmt, os[e.o], e.args, e.out, new[e.o])) \cup Kept(os, new, e)
    [] e.op = "Init" -> Clause((e.out = "error") = (Exists(e.path) /\ ~e.args.clobber), "init-outcome") \cup Kept(os, new, e)
    [] e.op = "Part" -> (IF ~Exists(e.path) THEN Clause(e.out = "error", "part-without-file")
                         ELSE PartClauses(os[e.o], fs[e.path], e.args, e.out)) \cup Kept(os, new, e)
    [] e.op = "Read" -> (IF ~Exists(e.path) THEN Clause(e.out = "error", "read-of-nothing")
                         ELSE FormReadClauses(e.fmt, fs[e.path], e.args, e.out, new[e.r])) \cup Kept(os, new, e)
    [] e.op = "ReadMany" ->
         \* unreadable files are an error, or skipped when that is asked for; a selection applies to every file
         (LET good == SelectSeq(e.paths, Exists)
              ps == [k \in 1..Len(good) |-> SelectPost(fs[good[k]], e.args.sel)] IN
          IF Len(good) < Len(e.paths) /\ ~e.args.skip THEN Clause(e.out = "error", "unreadable-file-ignored")
          ELSE IF \E k \in 1..Len(good) : SelectFails(fs[good[k]], e.args.sel) THEN Clause(e.out = "error", "bad-selection-accepted")
          ELSE IF Len(good) = 1 THEN (IF e.out = "error" THEN {"valid-read-refused"} ELSE WellFormedClauses(new[e.r]) \cup Diff(ps[1], new[e.r], Derived))
          ELSE IF e.args.axis = "" THEN AddClauses(ps[1], ps[2], e.out, new[e.r])
          ELSE ConcatClauses(ps, e.args.axis, e.out, new[e.r])) \cup Kept(os, new, e)
    [] e.op = "Meta" -> MetaClauses(fs[e.path], e.args, e.out, e.res)
    [] OTHER -> {"malformed"}
FsNext(os, e) ==
  CASE e.op = "Write" /\ e.out = "ok" -> (e.path :> Stored(e.fmt, After(os, e)[e.o], e.args)) @@ fs
    [] e.op = "Init" /\ e.out = "ok" -> (e.path :> Blank(os[e.o])) @@ fs
    [] e.op = "Part" /\ e.out = "ok" /\ Exists(e.path) -> (IF (SelectFails(os[e.o], e.args) /\ ~MayFail(os[e.o], e.args)) \/ e.args.badshape THEN fs
                                       ELSE (e.path :> PartPost(fs[e.path], e.args, e.cells)) @@ fs)
    [] OTHER -> fs
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs /\ fs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
             /\ fs' = IF e.op = "Malformed" THEN fs ELSE FsNext(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
