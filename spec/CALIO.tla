-------------------------------- MODULE CALIO -------------------------------
(***************************************************************************)
(* Calibration files.  fs maps a path to the abstract object it holds.     *)
(*   calh5    holds the object as it is                                    *)
(*   calfits  one spectral window, evenly spaced axes, no phase centers,   *)
(*            scan numbers or time dependent reference antennas            *)
(***************************************************************************)
EXTENDS CAL

KNoCells(o) == [o EXCEPT !.cells = <<>>, !.tq = <<>>, !.shape = <<>>, !.tqshape = <<>>, !.meta.only = TRUE, !.meta.hasq = FALSE]
\* evenly spaced within a tolerance
KEven(s, tol) == \A i \in 1..(Len(s) - 2) : Near(s[i + 2] - s[i + 1], s[i + 1] - s[i], tol)
KConst(s) == \A i \in 1..Len(s) : s[i] = s[1]
FitsFails(o) ==
  \/ o.meta.Nspws > 1
  \/ (o.meta.type = "gain" /\ o.meta.wide)
  \/ o.meta.flexj
  \/ (~o.meta.wide /\ (~KEven([j \in 1..NKF(o) |-> Freqs(o)[j].f], 0) \/ ~KConst([j \in 1..NKF(o) |-> Freqs(o)[j].w])))
  \/ (NKT(o) > 1 /\ (o.meta.trange \/ ~KEven([i \in 1..NKT(o) |-> KTimes(o)[i].t], 4) \/ ~KConst([i \in 1..NKT(o) |-> KTimes(o)[i].it])))
  \/ ~KEven([k \in 1..NKJ(o) |-> KJones(o)[k].j], 0)
KWriteFails(fmt, o) == o.meta.only \/ (fmt = "calfits" /\ FitsFails(o))
KWriteClauses(fmt, o, out) ==
  IF KWriteFails(fmt, o) THEN Clause(out = "error", "unsupported-object-written") ELSE Clause(out = "ok", "valid-write-refused")
KStored(fmt, o) ==
  IF fmt = "calh5" THEN o
  ELSE [o EXCEPT !.axes.freq = [j \in 1..NKF(o) |-> [Freqs(o)[j] EXCEPT !.spw = 0]],
                 !.axes.time = [i \in 1..NKT(o) |-> [KTimes(o)[i] EXCEPT !.scan = -1, !.ref = -1, !.pcid = -1, !.pc = "none", !.pcr = ""]],
                 !.meta.spws = <<0>>, !.meta.hasscan = FALSE, !.meta.hasref = FALSE, !.meta.haspc = FALSE, !.cat = <<>>]
\* files hold times as a start and a step: labels agree within a few ticks
KSnap(want, post) ==
  IF NKT(want) # NKT(post) THEN post
  ELSE [post EXCEPT !.axes.time = [i \in 1..NKT(post) |->
         LET w == KTimes(want)[i]
             p == KTimes(post)[i]
             ok == Near(w.t, p.t, 2) /\ Near(w.lst, p.lst, 3) /\ Near(w.lo, p.lo, 2) /\ Near(w.hi, p.hi, 2) /\ Near(w.llo, p.llo, 3) /\ Near(w.lhi, p.lhi, 3)
         IN IF ok THEN [p EXCEPT !.t = w.t, !.lst = w.lst, !.lo = w.lo, !.hi = w.hi, !.llo = w.llo, !.lhi = w.lhi] ELSE p]]
KReadClauses(fmt, f, a, out, post) ==
  IF a.rd /\ KSelectFails(f, a) THEN Clause(out = "error", "bad-selection-accepted")
  ELSE IF out = "error" THEN {"valid-read-refused"}
  ELSE LET want == IF a.rd THEN KSelectPost(f, a) ELSE KNoCells(f)
           got == KSnap(want, post)
       IN KWFClauses(got) \cup KDiff(want, got, IF a.rd THEN {} ELSE {"hasq"}) \cup Clause(DOMAIN want.meta = DOMAIN got.meta, "scalar-metadata")
\* the header-only view
KMetaClauses(f, out, r) ==
  IF out = "error" THEN {"header-view-refused"} ELSE
     Clause(r.ants = [k \in 1..NKA(f) |-> KAnts(f)[k].n], "meta-antennas")
\cup Clause(r.jones = [k \in 1..NKJ(f) |-> KJones(f)[k].j], "meta-jones")
\cup Clause(f.meta.trange \/ r.times = [k \in 1..NKT(f) |-> KTimes(f)[k].t], "meta-times")
\cup Clause(f.meta.wide \/ r.freqs = [k \in 1..NKF(f) |-> Freqs(f)[k].f], "meta-freqs")
\cup Clause(r.type = f.meta.type /\ r.style = f.meta.style /\ r.conv = f.meta.conv, "meta-scalars")
\cup Clause(\A q \in Range1(r.keys) : q.has = (q.ant \in AntNums(f) /\ q.j \in {KJones(f)[k].j : k \in 1..NKJ(f)}), "meta-has-key")
\cup Clause(KDiff(KNoCells(f), r.uvc, {"hasq"}) = {}, "meta-to-uvcal")
=============================================================================
