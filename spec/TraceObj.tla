------------------------------ MODULE TraceObj ------------------------------
(* Trace validation of equality, copies and validity. *)
EXTENDS OBJ, Json, IOUtils
VARIABLES t, l, objs
vars == <<t, l, objs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Ev(tt, k) == Traces[tt].events[k]
Next1(os, e) ==
  CASE e.op = "Make" -> (e.o :> [cls |-> e.cls, v |-> e.v, tok |-> e.tok, fp |-> e.fps[e.o], faults |-> {}]) @@ os
    [] e.op = "Clone" -> (e.r :> Clone(os[e.o], e.fps[e.r], e.args.meta)) @@ os
    [] e.op = "Spawn" -> (e.r :> [cls |-> e.cls, v |-> e.v, tok |-> e.tok, fp |-> e.fps[e.r], faults |-> {}]) @@ os
    [] e.op = "Assign" -> [os EXCEPT ![e.o] = Assign(os[e.o], e.args.p, e.args.tok, e.fps[e.o])]
    [] e.op = "Break" -> [os EXCEPT ![e.o].faults = os[e.o].faults \cup {e.args.rule}, ![e.o].fp = e.fps[e.o]]
    [] OTHER -> os
Clauses(os, e) ==
  CASE e.op = "Make" -> Clause(Untouched(os, e.fps, {}), "another-object-changed")
    [] e.op = "Clone" -> CloneClauses(os[e.o], e.fps[e.r], e.args.meta) \cup Clause(Untouched(os, e.fps, {}), "another-object-changed")
    [] e.op = "Spawn" -> Clause(Untouched(os, e.fps, {}), "another-object-changed")
    [] e.op = "Assign" -> AssignClauses(os[e.o], e.args.p, e.fps[e.o]) \cup Clause(Untouched(os, e.fps, {e.o}), "another-object-changed")
    [] e.op = "Break" -> Clause(Untouched(os, e.fps, {e.o}), "another-object-changed")
    [] e.op = "Equal" ->
         Clause(e.out = "ok", "comparison-failed")
         \cup Clause(e.out = "ok" => (e.res = EqualObjs(os[e.o], os[e.b], e.args.extra, SeqSet(e.args.allowed))), "wrong-equality")
         \cup Clause(Untouched(os, e.fps, {}), "comparison-changed-an-object")
    [] e.op = "Check" ->
         Clause((e.out = "ok") = Valid(os[e.o], e.args), IF e.out = "ok" THEN "fault-not-noticed" ELSE "valid-object-refused")
         \cup Clause(Untouched(os, e.fps, {}), "check-changed-an-object")
    [] OTHER -> {"malformed"}
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE Next1(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
