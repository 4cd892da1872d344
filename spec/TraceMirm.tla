------------------------------ MODULE TraceMirm ------------------------------
(* Trace validation of the tables of SMA metadata. *)
EXTENDS MIRM, Json, IOUtils
VARIABLES t, l, tabs, files
vars == <<t, l, tabs, files>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
Ev(tt, k) == Traces[tt].events[k]
None == [x \in {} |-> 0]
\* what is seen of a table
Seen(p, st) == [rows |-> p.rows, mask |-> p.mask, st |-> st]
Same(tb, p) == tb.rows = p.rows /\ tb.mask = p.mask
Others(ts, e, w) == Clause(\A o \in DOMAIN ts : (o \notin w) => Same(ts[o], e.post[o]), "another-table-changed")
SumArgs(e) == e.args
Clauses(ts, fs, e) ==
  CASE e.op = "Make" -> Others(ts, e, {e.o}) \cup Clause(KeysUnique(Seen(e.post[e.o], None)), "harness")
    [] e.op = "Get" ->
         LET tb == ts[e.o] q == e.args.q IN
         Others(ts, e, {})
         \cup (IF QueryFails(tb, q) THEN Clause(e.out = "error", "bad-query-accepted")
               ELSE Clause(e.out = "ok", "query-refused")
                    \cup Clause(e.out = "ok" => LET at == QueryRows(tb, q) IN
                           e.res = [i \in 1..Len(at) |-> [j \in 1..Len(e.args.flds) |-> tb.rows[at[i]].f[e.args.flds[j]]]], "wrong-values"))
    [] e.op = "Keys" ->
         LET tb == ts[e.o] q == e.args.q IN
         Others(ts, e, {})
         \cup (IF QueryFails(tb, q) THEN Clause(e.out = "error", "bad-query-accepted")
               ELSE Clause(e.out = "ok", "query-refused")
                    \cup Clause(e.out = "ok" => LET at == QueryRows(tb, q) IN e.res = [i \in 1..Len(at) |-> tb.rows[at[i]].k], "wrong-keys"))
    [] e.op = "GetMask" ->
         LET tb == ts[e.o] q == e.args.q IN
         Others(ts, e, {})
         \cup (IF QueryFails(tb, NoMask(q)) THEN Clause(e.out = "error", "bad-query-accepted")
               ELSE Clause(e.out = "ok", "query-refused")
                    \cup Clause(e.out = "ok" => LET at == QueryRows(tb, NoMask(q)) IN e.res = [i \in 1..Len(at) |-> tb.mask[at[i]]], "wrong-mask"))
    [] e.op = "Where" ->
         LET tb == ts[e.o] w == e.args.w m == e.args.mask
             ok(i) == Holds(tb.rows[i], w) /\ (Len(m) = 0 \/ m[i]) IN
         Others(ts, e, {})
         \cup (IF w.fld \notin Fields THEN Clause(e.out = "error", "bad-query-accepted")
               ELSE Clause(e.out = "ok", "query-refused")
                    \cup Clause(e.out = "ok" => e.res = (IF e.args.keys THEN LET at == Picked(N(tb), ok) IN [i \in 1..Len(at) |-> tb.rows[at[i]].k]
                                                         ELSE [i \in 1..N(tb) |-> IF ok(i) THEN "T" ELSE "F"]), "wrong-rows"))
    [] e.op = "Iter" ->
         LET at == Active(ts[e.o]) IN
         Others(ts, e, {}) \cup Clause(e.out = "ok" /\ e.res = [i \in 1..Len(at) |-> ts[e.o].rows[at[i]].k] /\ e.n = Len(at), "wrong-iteration")
    [] e.op = "Group" ->
         LET tb == ts[e.o] IN
         Others(ts, e, {})
         \cup (IF QueryFails(tb, e.args.q) THEN Clause(e.out = "error", "bad-query-accepted")
               ELSE Clause(e.out = "ok", "query-refused") \cup Clause(e.out = "ok" => GroupsOK(tb, e.args, e.res), "wrong-groups"))
    [] e.op = "SetMask" ->
         LET tb == ts[e.o] IN
         IF e.args.kind = "query" /\ QueryFails(tb, NoMask(e.args.q))
         THEN Clause(e.out = "error", "bad-query-accepted") \cup Others(ts, e, {})
         ELSE LET n == SetMask(tb, e.args) IN
              Clause(e.out = "ok", "change-refused") \cup Others(ts, e, {e.o})
              \cup Clause(e.out = "ok" => Same(n, e.post[e.o]), "wrong-mask")
              \cup Clause(e.out = "ok" => e.res = (n.mask # tb.mask), "change-misreported")
    [] e.op = "SetValue" ->
         LET tb == ts[e.o] IN
         IF QueryFails(tb, e.args.q)
         THEN Clause(e.out = "error", "bad-query-accepted") \cup Others(ts, e, {})
         ELSE Clause(e.out = "ok", "change-refused") \cup Others(ts, e, {e.o})
              \cup Clause(e.out = "ok" => Same(SetValue(tb, e.args.fld, e.args.q, e.args.vals), e.post[e.o]), "wrong-values-set")
    [] e.op = "ResetValues" ->
         LET tb == ts[e.o] flds == IF e.args.every THEN DOMAIN tb.st ELSE Ran(e.args.flds) IN
         IF ~(flds \subseteq DOMAIN tb.st)
         THEN Clause(e.out = "error", "bad-reset-accepted") \cup Others(ts, e, {})
         ELSE Clause(e.out = "ok", "reset-refused") \cup Others(ts, e, {e.o})
              \cup Clause(e.out = "ok" => Same(ResetValues(tb, flds), e.post[e.o]), "not-the-original-values")
    [] e.op = "Reset" ->
         Clause(e.out = "ok", "reset-refused") \cup Others(ts, e, {e.o}) \cup Clause(e.out = "ok" => Same(Reset(ts[e.o]), e.post[e.o]), "not-the-original-table")
    [] e.op = "Copy" ->
         Clause(e.out = "ok", "copy-refused") \cup Others(ts, e, {e.r}) \cup Clause(e.out = "ok" => Same(ts[e.o], e.post[e.r]), "copy-differs")
    [] e.op = "Add" ->
         LET tb == ts[e.o] u == ts[e.b] IN
         IF SumFails(tb, u, e.args)
         THEN Clause(e.out = "error", "bad-sum-accepted") \cup Others(ts, e, {})
         ELSE Clause(e.out = "ok", "sum-refused")
              \cup Others(ts, e, {e.r})
              \cup Clause(e.out = "ok" => (AsSet(Seen(e.post[e.r], None)) = SumSet(tb, u, e.args)
                                           /\ Len(e.post[e.r].rows) = Cardinality(SumSet(tb, u, e.args))), "wrong-sum")
    [] e.op = "Equal" ->
         Others(ts, e, {}) \cup Clause(e.out = "ok", "comparison-failed")
         \cup Clause((e.out = "ok" /\ ~(e.args.um /\ e.args.cm)) => e.res = EqualTables(ts[e.o], ts[e.b], e.args), "wrong-equality")
    [] e.op = "Write" ->
         LET tb == ts[e.o] there == e.path \in DOMAIN fs IN
         Others(ts, e, {})
         \cup (IF there /\ ((~e.args.ow /\ ~e.args.app) \/ (e.args.app /\ e.args.chk /\ Conflict(tb, fs[e.path])))
               THEN Clause(e.out = "error", "bad-write-accepted") ELSE Clause(e.out = "ok", "write-refused"))
    [] e.op = "Read" ->
         Others(ts, e, {e.r}) \cup Clause(e.out = "ok", "read-refused")
         \cup Clause(e.out = "ok" => Same(FileOf(fs[e.path]), e.post[e.r]), "file-differs")
    [] OTHER -> {"malformed"}
\* observed contents, expected memory
Next1(ts, e) ==
  IF e.op \in {"Malformed"} THEN ts
  ELSE IF e.op = "Make" THEN (e.o :> Seen(e.post[e.o], NoStored)) @@ ts
  ELSE IF e.out # "ok" THEN ts
  ELSE CASE e.op \in {"SetMask"} -> [ts EXCEPT ![e.o].mask = e.post[e.o].mask]
    [] e.op = "SetValue" -> [ts EXCEPT ![e.o] = Seen(e.post[e.o], IF QueryFails(ts[e.o], e.args.q) THEN ts[e.o].st ELSE SetValue(ts[e.o], e.args.fld, e.args.q, e.args.vals).st)]
    [] e.op = "ResetValues" -> [ts EXCEPT ![e.o] = Seen(e.post[e.o], IF e.args.every THEN NoStored ELSE [g \in DOMAIN ts[e.o].st \ Ran(e.args.flds) |-> ts[e.o].st[g]])]
    [] e.op = "Reset" -> [ts EXCEPT ![e.o] = Seen(e.post[e.o], NoStored)]
    [] e.op = "Copy" -> (e.r :> Seen(e.post[e.r], ts[e.o].st)) @@ ts
    [] e.op \in {"Add", "Read"} -> (e.r :> Seen(e.post[e.r], NoStored)) @@ ts
    [] OTHER -> ts
NextF(ts, fs, e) ==
  IF e.op # "Write" THEN fs ELSE IF e.out # "ok" THEN fs
  ELSE LET tb == ts[e.o] IN
       (e.path :> (IF e.args.app /\ e.path \in DOMAIN fs
                   THEN fs[e.path] \o (IF e.args.chk THEN NewRows(tb, fs[e.path]) ELSE ActiveRows(tb))
                   ELSE ActiveRows(tb))) @@ fs
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ tabs = None /\ files = None
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(tabs, files, e))
             /\ tabs' = Next1(tabs, e)
             /\ files' = NextF(tabs, files, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
