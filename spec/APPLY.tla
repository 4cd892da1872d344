-------------------------------- MODULE APPLY -------------------------------
(***************************************************************************)
(* Applying calibration solutions and flag objects to visibilities.        *)
(* Data d (lib/vf/apply.py:pdata): a cube over                             *)
(*   blt [t, a1, a2 (numbers), n1, n2 (names)], freq [f], pol (numbers)    *)
(*   cells <<re, im, flag, nsample>> with re, im in 1/SC, xo, units, pc.   *)
(* Calibration c (pcal): a cube over ant (names), freq [f], time [t, lo,   *)
(*   hi], jones (numbers); cells <<re, im, flag>> or, for delays,          *)
(*   <<n, 0, flag>>: a delay of n quarter turns per 50 kHz.               *)
(***************************************************************************)
EXTENDS Cube

SC == 128
TT == 10     \* 1 ms in ticks of 0.1 ms
ANx(o, ax) == Len(o.axes[ax])
CMulC(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CConj(x) == <<x[1], -x[2]>>

\* the two feeds of a polarization as jones numbers on the calibration object
FeedsOf(p) == CASE p = -5 -> <<-5, -5>> [] p = -6 -> <<-6, -6>> [] p = -7 -> <<-5, -6>> [] p = -8 -> <<-6, -5>>
                [] p = -1 -> <<-1, -1>> [] p = -2 -> <<-2, -2>> [] p = -3 -> <<-1, -2>> [] p = -4 -> <<-2, -1>> [] OTHER -> <<0, 0>>
Swap(d, c) == d.xo # "None" /\ d.xo # c.xo
OnCal(d, c, j) == IF Swap(d, c) THEN (IF j = -5 THEN -6 ELSE IF j = -6 THEN -5 ELSE j) ELSE j
Feeds(d, c) == {OnCal(d, c, FeedsOf(d.axes.pol[p])[k]) : p \in 1..ANx(d, "pol"), k \in {1, 2}}

DNames(d) == {d.axes.blt[k].n1 : k \in 1..ANx(d, "blt")} \cup {d.axes.blt[k].n2 : k \in 1..ANx(d, "blt")}
DTimes(d) == {d.axes.blt[k].t : k \in 1..ANx(d, "blt")}
\* position of the solution interval that serves time t (0: none)
CTime(c, t) ==
  IF c.ranges THEN (IF \E k \in 1..ANx(c, "time") : c.axes.time[k].lo <= t /\ t <= c.axes.time[k].hi
                    THEN CHOOSE k \in 1..ANx(c, "time") : c.axes.time[k].lo <= t /\ t <= c.axes.time[k].hi ELSE 0)
  ELSE IF \E k \in 1..ANx(c, "time") : Near(c.axes.time[k].t, t, TT - 2)
       THEN CHOOSE k \in 1..ANx(c, "time") : Near(c.axes.time[k].t, t, TT - 2) ELSE 0
TimeUse(c, t) == IF ANx(c, "time") = 1 THEN 1 ELSE CTime(c, t)
CFreq(c, f) == IF \E k \in 1..ANx(c, "freq") : c.axes.freq[k].f = f THEN CHOOSE k \in 1..ANx(c, "freq") : c.axes.freq[k].f = f ELSE 0
CAnt(c, n) == IF \E k \in 1..ANx(c, "ant") : c.axes.ant[k] = n THEN CHOOSE k \in 1..ANx(c, "ant") : c.axes.ant[k] = n ELSE 0
CJones(c, j) == CHOOSE k \in 1..ANx(c, "jones") : c.axes.jones[k] = j

\* polarization conventions: <<error, calibration's, data's>>
PolConv(d, c, a) ==
  LET cc == IF a.cpc # "None" THEN a.cpc ELSE IF c.pc # "None" THEN c.pc ELSE IF a.dpc # "None" THEN a.dpc ELSE d.pc
      cbad == a.cpc # "None" /\ c.pc # "None" /\ a.cpc # c.pc
      dd == IF a.dpc # "None" THEN a.dpc ELSE IF a.undo /\ d.pc # "None" THEN d.pc ELSE cc
      dbad == IF a.undo THEN a.dpc # "None" /\ d.pc # "None" /\ a.dpc # d.pc ELSE d.pc # "None"
  IN <<cbad \/ dbad, cc, dd>>
CalFails(d, c, a) ==
  \/ (c.type = "gain" /\ c.wide) \/ (c.type = "delay" /\ c.nspws > 1)
  \/ \E p \in Range1(d.axes.pol) : p > 0
  \/ (c.scale # "None" /\ a.undo /\ c.scale # d.units)
  \/ PolConv(d, c, a)[1]
  \/ (a.antcheck /\ ~(DNames(d) \subseteq Range1(c.axes.ant)))
  \/ IF ANx(c, "time") = 1
     THEN a.timecheck /\ \E t \in DTimes(d) : CTime(c, t) = 0
     ELSE \E t \in DTimes(d) : CTime(c, t) = 0
  \/ (c.type = "gain" /\ ~c.wide /\ \E k \in 1..ANx(d, "freq") : CFreq(c, d.axes.freq[k].f) = 0)
  \/ (c.type = "delay" /\ \E k \in 1..ANx(d, "freq") : d.axes.freq[k].f < c.frange[1] \/ d.axes.freq[k].f > c.frange[2])
  \/ ~(Feeds(d, c) \subseteq Range1(c.axes.jones))
\* gain of antenna n with jones j on data channel f (value) at solution interval k: <<re, im, flag>>
Quarter(q) == LET r == q % 4 IN IF r = 0 THEN <<1, 0>> ELSE IF r = 1 THEN <<0, 1>> ELSE IF r = 2 THEN <<-1, 0>> ELSE <<0, -1>>
GainOf(c, a, n, j, f, k) ==
  LET cell(fi) == CellAt(c, <<CAnt(c, n), fi, k, CJones(c, j)>>)
  IN IF c.type = "gain" THEN cell(CFreq(c, f))
     ELSE LET x == cell(1)
              q == (f \div 50000) * x[1]
              g == Quarter(IF a.dconv = "minus" THEN -q ELSE q)
          IN <<g[1], g[2], x[3]>>
\* x * g * num / den  or  x / g * num / den, cross multiplied against the result r
Applied(x, g, mult, num, den, r) ==
  IF mult THEN LET y == CMulC(x, g) IN r[1] * den = y[1] * num /\ r[2] * den = y[2] * num
  ELSE LET y == CMulC(r, g) IN y[1] * den = x[1] * num /\ y[2] * den = x[2] * num
CalibrateClauses(d, c, a, out, post) ==
  IF CalFails(d, c, a) THEN Clause(out = "error", "bad-calibration-accepted") \cup Clause(post = d, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"valid-calibration-refused"}
  ELSE LET pcv == PolConv(d, c, a)
           scaled == c.scale # "None" /\ pcv[2] # pcv[3]
           up == (pcv[2] = "sum") # a.undo
           num == IF scaled /\ up THEN 2 ELSE 1
           den == IF scaled /\ ~up THEN 2 ELSE 1
           mult == (c.conv = "multiply") # a.undo
           nf == ANx(d, "freq")
           np == ANx(d, "pol")
           ok(b, f, p) ==
             LET q == ((b - 1) * nf + (f - 1)) * np + p
                 x == d.cells[q]
                 r == post.cells[q]
                 B == d.axes.blt[b]
                 fd == FeedsOf(d.axes.pol[p])
                 have == CAnt(c, B.n1) # 0 /\ CAnt(c, B.n2) # 0
                 k == TimeUse(c, B.t)
                 g1 == GainOf(c, a, B.n1, OnCal(d, c, fd[1]), d.axes.freq[f].f, k)
                 g2 == GainOf(c, a, B.n2, OnCal(d, c, fd[2]), d.axes.freq[f].f, k)
                 g == IF a.flip THEN CMulC(CConj(g1), g2) ELSE CMulC(g1, CConj(g2))
                 masked == a.prop /\ (g = <<0, 0>> \/ g1[3] = 1 \/ g2[3] = 1)
             IN /\ r[4] = x[4]
                /\ r[3] = IF ~have \/ masked THEN 1 ELSE x[3]
                /\ IF ~have \/ masked THEN r[1] * den = x[1] * num /\ r[2] * den = x[2] * num
                   ELSE Applied(x, g, mult, num, den, r)
       IN Clause(post.axes = d.axes /\ post.rest = d.rest, "labels-changed")
     \cup Clause(Len(post.cells) = Len(d.cells) /\ \A b \in 1..ANx(d, "blt") : \A f \in 1..nf : \A p \in 1..np : ok(b, f, p), "calibrated-values")
     \cup Clause(post.units = IF a.undo THEN "uncalib" ELSE IF c.scale = "None" THEN d.units ELSE c.scale, "units")
     \cup Clause(post.pc = IF c.scale = "None" THEN d.pc ELSE IF a.undo THEN "None" ELSE pcv[3], "polarization-convention")

-----------------------------------------------------------------------------
(* flags f: the projection of FLAG.tla; waterfalls and antenna flags are   *)
(* broadcast to the data first                                              *)
FTime(f, t) == IF \E k \in 1..Len(f.axes.time) : Near(f.axes.time[k].t, t, TT - 2) THEN CHOOSE k \in 1..Len(f.axes.time) : Near(f.axes.time[k].t, t, TT - 2) ELSE 0
FPols(f) == f.axes.pol
FPos(s, x) == IF \E k \in 1..Len(s) : s[k] = x THEN CHOOSE k \in 1..Len(s) : s[k] = x ELSE 0
FRow(f, B) == {k \in 1..Len(f.axes.blt) : f.axes.blt[k].a1 = B.a1 /\ f.axes.blt[k].a2 = B.a2 /\ Near(f.axes.blt[k].t, B.t, TT - 2)}
FPair(f, B) == {k \in 1..Len(f.axes.blt) : f.axes.blt[k].a1 = B.a1 /\ f.axes.blt[k].a2 = B.a2}
FTimesOf(f) == {f.axes.blt[k].t : k \in 1..Len(f.axes.blt)}
SameTimes(d, f) == Cardinality(FTimesOf(f)) = Cardinality(DTimes(d)) /\ \A t \in DTimes(d) : \E u \in FTimesOf(f) : Near(t, u, TT - 2)
DFreqs(d) == [k \in 1..ANx(d, "freq") |-> d.axes.freq[k].f]
FFreqs(f) == [k \in 1..Len(f.axes.freq) |-> f.axes.freq[k].f]
ApplyFails(d, f, a) ==
  \/ f.meta.mode # "flag"
  \/ (f.meta.type # "baseline" /\ (FFreqs(f) # DFreqs(d) \/ (FPols(f) # d.polstr /\ ~(a.force /\ Len(FPols(f)) = 1))))
  \/ (f.meta.type = "baseline" /\
        (\/ (Range1(FPols(f)) # Range1(d.polstr) /\ ~(a.force /\ Len(FPols(f)) = 1))
         \/ (Cardinality(FTimesOf(f)) > 1 /\ ~SameTimes(d, f))
         \/ (Len(FFreqs(f)) > 1 /\ Range1(FFreqs(f)) # Range1(DFreqs(d)))))
AFlag(f, n, fi, ti, pi) == IF FPos(f.axes.ant, n) = 0 THEN 1 ELSE CellAt(f, <<FPos(f.axes.ant, n), fi, ti, pi>>)[1]
\* the flag that f gives to cell (B, channel value fv, polarization text ps); 2: f has nothing there
GivenFlag(f, B, fi, fv, ps) ==
  LET pi == IF Len(FPols(f)) = 1 THEN 1 ELSE FPos(FPols(f), ps) IN
  IF f.meta.type = "baseline"
  THEN LET rows == IF Cardinality(FTimesOf(f)) = 1 THEN FPair(f, B) ELSE FRow(f, B)
           k == IF Len(FFreqs(f)) = 1 THEN 1 ELSE FPos(FFreqs(f), fv)
       IN IF rows = {} THEN 2 ELSE CellAt(f, <<CHOOSE x \in rows : TRUE, k, pi>>)[1]
  ELSE LET t == FTime(f, B.t) IN
       IF f.meta.type = "waterfall" THEN (IF t = 0 THEN 0 ELSE CellAt(f, <<t, fi, pi>>)[1])
       ELSE IF t = 0 THEN 1
       ELSE IF AFlag(f, B.a1, fi, t, pi) = 1 \/ AFlag(f, B.a2, fi, t, pi) = 1 THEN 1 ELSE 0
ApplyClauses(d, f, a, out, post) ==
  IF ApplyFails(d, f, a) THEN Clause(out = "error", "bad-flags-accepted") \cup Clause(post = d, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"valid-flags-refused"}
  ELSE LET nf == ANx(d, "freq")
           np == ANx(d, "pol")
           ok(b, fi, p) ==
             LET q == ((b - 1) * nf + (fi - 1)) * np + p
                 x == d.cells[q]
                 g == GivenFlag(f, d.axes.blt[b], fi, d.axes.freq[fi].f, d.polstr[p])
                 base == IF a.unflag THEN 0 ELSE x[3]
             IN post.cells[q] = <<x[1], x[2], IF base = 1 \/ g = 1 \/ (g = 2 /\ a.missing) THEN 1 ELSE 0, x[4]>>
       IN Clause(post.axes = d.axes /\ post.rest = d.rest /\ post.units = d.units /\ post.pc = d.pc, "labels-changed")
     \cup Clause(Len(post.cells) = Len(d.cells) /\ \A b \in 1..ANx(d, "blt") : \A fi \in 1..nf : \A p \in 1..np : ok(b, fi, p), "applied-flags")
=============================================================================
