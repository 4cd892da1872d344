----------------------------- MODULE TraceLife -----------------------------
(* Replay of behaviours of MCLife in the real code: after every step the   *)
(* real objects hold exactly the labelled visibilities of the model state. *)
EXTENDS UVDIO, Json, IOUtils
VARIABLES t, l, objs
vars == <<t, l, objs>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NoObjs == [x \in {} |-> 0]
Ev(tt, k) == Traces[tt].events[k]
After(os, e) == e.post @@ os
Same(want, got) == Len(want) = Len(got) /\ Range1(want) = Range1(got)
OrderClauses(e, o) ==
  CASE e.act = "ReorderBlts" -> Clause(SortedBlts(o, e.args), "requested-order")
    [] e.act = "ReorderPols" -> Clause(\A k \in 1..(NPol(o) - 1) : PolRank(e.args.kind, Pols(o)[k].p) < PolRank(e.args.kind, Pols(o)[k + 1].p), "requested-order")
    [] e.act = "ReorderFreqs" -> Clause(\A j \in 1..(NFreq(o) - 1) : IF e.args.chan = "freq" THEN Freqs(o)[j].f < Freqs(o)[j + 1].f ELSE Freqs(o)[j].f > Freqs(o)[j + 1].f, "requested-order")
    [] OTHER -> {}
Clauses(os, e) ==
  LET new == After(os, e) IN
     Clause(e.out = e.wantout, IF e.out = "error" THEN "valid-step-refused" ELSE "invalid-step-accepted")
\cup Clause(e.out = "error" \/ Same(e.want.a, e.got.a), "a-differs-from-the-model")
\cup Clause(e.out = "error" \/ Same(e.want.b, e.got.b), "b-differs-from-the-model")
\cup Clause(e.out # "error" \/ e.wantout # "error" \/ new = os, "failed-call-changed-object")
\cup UNION {WellFormedClauses(new[x]) : x \in DOMAIN new}
\cup (IF e.out = "ok" THEN OrderClauses(e, new["a"]) ELSE {})
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1 /\ objs = NoObjs
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Ev(t, l) IN
             /\ Report(t, l, IF e.op = "Malformed" THEN {"malformed"} ELSE Clauses(objs, e))
             /\ objs' = IF e.op = "Malformed" THEN objs ELSE After(objs, e)
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
