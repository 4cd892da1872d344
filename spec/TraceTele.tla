---------------------------- MODULE TraceTele ----------------------------
EXTENDS TELE, Json, IOUtils
VARIABLES t, l
vars == <<t, l>>
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
Ev(tt, k) == Traces[tt].events[k]
Clauses(e) ==
  CASE e.op \in {"ToEnu", "FromEnu", "Rotate", "Xyz", "Lla", "Surface"} -> FrameClauses(e)
    [] e.op \in {"NewTelescope", "Known", "Header", "AntsEnu"} -> TelClauses(e)
    [] OTHER -> {"malformed"}
Report(tt, k, c) == IF c = {} THEN TRUE ELSE PrintT("VFREJECT|" \o ToString(tt) \o "|" \o ToString(k) \o "|" \o ToString(c) \o "|END")
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].events)
        /\ Report(t, l, Clauses(Ev(t, l)))
        /\ l' = l + 1
        /\ t' = t
View == <<t, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
