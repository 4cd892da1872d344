------------------------------ MODULE UVDMath ------------------------------
(* Operations on the values of visibilities, and the flexible-polarization form: sums and differences, removal of
   equalization coefficients, normalization by the autocorrelations, and conversions between an object whose windows each
   have their own polarization and one with a polarization axis.
   Cells are scaled by args.sc. *)
EXTENDS UVDAvg

(* sum and difference: everything but the data (and what is overridden) has to agree *)
Masked(o, ov) ==
  LET c(x) == <<0, 0, IF "flag_array" \in ov THEN 0 ELSE x[3], IF "nsample_array" \in ov THEN 0 ELSE x[4]>>
      b(x) == IF "integration_time" \in ov THEN [x EXCEPT !.it = 0] ELSE x
  IN [axes |-> [o.axes EXCEPT !.blt = [i \in 1..NBlt(o) |-> b(Blts(o)[i])]], cells |-> [q \in 1..Len(o.cells) |-> c(o.cells[q])],
      meta |-> [f \in (DOMAIN o.meta) \ ({"xkw"} \cup (IF "vis_units" \in ov THEN {"units"} ELSE {}) \cup {"rect", "tfast"}) |-> o.meta[f]],
      tel |-> o.tel, cat |-> o.cat, order |-> o.order]
SumClauses(a, b, args, out, p, xk) ==
  LET ov == Range1(args.override)
      ok == Masked(a, ov) = Masked(b, ov) /\ ~args.badname
      sgn == IF args.diff THEN -1 ELSE 1
  IN IF ~ok THEN Clause(out = "error", "incompatible-objects-summed") \cup Clause(out # "error" \/ p = a, "failed-call-changed-object")
     ELSE IF out = "error" THEN {"sum-refused"}
     ELSE Diff([a EXCEPT !.cells = [q \in 1..Len(a.cells) |-> <<a.cells[q][1] + (sgn * b.cells[q][1]), a.cells[q][2] + (sgn * b.cells[q][2]),
                                                              a.cells[q][3], a.cells[q][4]>>]], p, {"xkw"})
          \cup Clause(xk.p = xk.a @@ xk.b, "extra-keywords-merged") \cup WellFormedClauses(p)

-----------------------------------------------------------------------------
AntPos(o, n) == CHOOSE k \in 1..Len(o.tel.ants) : o.tel.ants[k].num = n
EqAt(o, i, j) == ((Freqs(o)[j].eq[AntPos(o, Blts(o)[i].a1)]) \div 1000) * ((Freqs(o)[j].eq[AntPos(o, Blts(o)[i].a2)]) \div 1000)
EqClauses(o, out, p) ==
  IF (\E j \in 1..NFreq(o) : Freqs(o)[j].eq = <<>>) \/ o.meta.eqconv \notin {"multiply", "divide"}
  THEN Clause(out = "error", "no-coefficients-to-remove") \cup Clause(p = o, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"coefficients-refused"}
  ELSE IF Len(p.cells) # Len(o.cells) THEN {"wf-cells"}
  ELSE Diff([o EXCEPT !.cells = p.cells], p, {})
       \cup Clause(\A i \in 1..NBlt(o), j \in 1..NFreq(o), k \in 1..NPol(o) :
              LET x == Cell(o, o.cells, i, j, k)
                  y == Cell(p, p.cells, i, j, k)
                  e == EqAt(o, i, j)
              IN /\ x[3] = y[3] /\ x[4] = y[4]
                 /\ IF o.meta.eqconv = "multiply" THEN y[1] = e * x[1] /\ y[2] = e * x[2]
                    ELSE Near(e * y[1], x[1], e) /\ Near(e * y[2], x[2], e), "coefficients-removed")

-----------------------------------------------------------------------------
(* normalization by the autocorrelations of the two antennas at the same time *)
Par(p) == p \notin {-3, -4, -7, -8}
\* polarizations of the autocorrelations a polarization is normalized by
F1(p) == CASE p = -7 -> -5 [] p = -8 -> -6 [] p = -3 -> -1 [] p = -4 -> -2 [] OTHER -> p
F2(p) == CASE p = -7 -> -6 [] p = -8 -> -5 [] p = -3 -> -2 [] p = -4 -> -1 [] OTHER -> p
HasP(o, p) == \E k \in 1..NPol(o) : Pols(o)[k].p = p
AutoRows(o, i, n) == {m \in 1..NBlt(o) : Blts(o)[m].a1 = n /\ Blts(o)[m].a2 = n /\ Near(Blts(o)[m].t, Blts(o)[i].t, TTol)}
AutoCell(o, i, n, j, p) == Cell(o, o.cells, CHOOSE m \in AutoRows(o, i, n) : TRUE, j, PolIx(o, p))
\* autocorrelations are powers of 4: 4^k * sc
Root(x, sc) == IF \E k \in 0..3 : x = sc * (4 ^ k) THEN 2 ^ (CHOOSE k \in 0..3 : x = sc * (4 ^ k)) ELSE 0
NormClauses(o, a, out, p) ==
  LET noauto == ~\E i \in 1..NBlt(o) : IsAuto(Blts(o)[i])
      nopol == \E k \in 1..NPol(o) : ~HasP(o, F1(Pols(o)[k].p)) \/ ~HasP(o, F2(Pols(o)[k].p))
  IN IF noauto \/ nopol THEN Clause(out = "error", "no-autos-to-normalize-by") \cup Clause(out # "error" \/ p = o, "failed-call-changed-object")
     ELSE IF out = "error" THEN {"normalization-refused"}
     ELSE IF Len(p.cells) # Len(o.cells) THEN {"wf-cells"}
     ELSE Diff([o EXCEPT !.cells = p.cells], p, {})
       \cup Clause(\A i \in 1..NBlt(o), j \in 1..NFreq(o), k \in 1..NPol(o) :
              LET b == Blts(o)[i]
                  q == Pols(o)[k].p
                  x == Cell(o, o.cells, i, j, k)
                  y == Cell(p, p.cells, i, j, k)
              IN IF IsAuto(b) /\ Par(q) /\ a.skip THEN x = y
                 ELSE IF AutoRows(o, i, b.a1) = {} \/ AutoRows(o, i, b.a2) = {} THEN y[3] = 1 /\ y[4] = x[4]
                 ELSE LET c1 == AutoCell(o, i, b.a1, j, F1(q))
                          c2 == AutoCell(o, i, b.a2, j, F2(q))
                          bad == c1[3] = 1 \/ c2[3] = 1 \/ c1[1] <= 0 \/ c2[1] <= 0
                          g == Root(c1[1], a.sc) * Root(c2[1], a.sc)
                      IN IF bad THEN y[3] = 1 /\ y[4] = x[4]
                         ELSE /\ y[3] = x[3] /\ y[4] = x[4]
                              /\ g = 0 \/ (IF a.inv THEN Near(y[1], x[1] * g, 1) /\ Near(y[2], x[2] * g, 1)
                                           ELSE Near(y[1] * g, x[1], g) /\ Near(y[2] * g, x[2], g)), "normalized-by-autos")

-----------------------------------------------------------------------------
(* flexible polarization: channel j of a flex-pol object is channel (f, w) of polarization fp *)
ChanKey(x) == <<x.f, x.w, x.eq>>
\* index of cell columns: what is measured at (blt i, channel key, polarization)
ToFlexClauses(o, out, p) ==
  LET n == NFreq(o) * NPol(o) IN
  IF o.meta.flexpol THEN Clause(out = "error", "flex-pol-twice") \cup Clause(p = o, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"conversion-refused"}
  ELSE IF NFreq(p) # n \/ NPol(p) # 1 \/ ~p.meta.flexpol \/ p.axes.pol # <<[p |-> 0]>> THEN {"flex-pol-shape"}
  ELSE IF (Len(p.cells) # 0 /\ Len(p.cells) # Len(o.cells)) \/ NBlt(p) # NBlt(o) THEN {"wf-cells"} ELSE
    WellFormedClauses(p)
    \cup Clause(p.axes.blt = o.axes.blt, "blt-labels")
    \cup Clause(\A j \in 1..NFreq(o), k \in 1..NPol(o) :
           \E J \in 1..n : /\ ChanKey(Freqs(p)[J]) = ChanKey(Freqs(o)[j]) /\ Freqs(p)[J].fp = Pols(o)[k].p
                           /\ o.cells = <<>> \/ \A i \in 1..NBlt(o) : p.cells # <<>> /\ Cell(p, p.cells, i, J, 1) = Cell(o, o.cells, i, j, k), "flex-pol-cells")
    \cup Clause(\A J, K \in 1..n :
           LET spwof(x) == {Freqs(o)[j].spw : j \in {m \in 1..NFreq(o) : ChanKey(Freqs(o)[m]) = ChanKey(Freqs(p)[x])}}
           IN Cardinality(spwof(J)) > 1 \/ Cardinality(spwof(K)) > 1 \/
              ((Freqs(p)[J].spw = Freqs(p)[K].spw) = (spwof(J) = spwof(K) /\ Freqs(p)[J].fp = Freqs(p)[K].fp)), "flex-pol-windows")
    \cup Diff([o EXCEPT !.axes = p.axes, !.cells = p.cells, !.meta.spws = p.meta.spws, !.meta.flexpol = TRUE], p, {})

SpwSet(o) == Range1(o.meta.spws)
SpwChans(o, s) == {j \in 1..NFreq(o) : Freqs(o)[j].spw = s}
SpwPol(o, s) == Freqs(o)[CHOOSE j \in SpwChans(o, s) : TRUE].fp
FW(x) == <<x.f, x.w>>
Content(o, s) == {FW(Freqs(o)[j]) : j \in SpwChans(o, s)}
Twins(o, s) == {r \in SpwSet(o) : Content(o, r) = Content(o, s)}
FPols(o) == {SpwPol(o, s) : s \in SpwSet(o)}
UnflexClauses(o, a, out, p) ==
  LET dup == \E s, r \in SpwSet(o) : s # r /\ Content(o, s) = Content(o, r) /\ SpwPol(o, s) = SpwPol(o, r)
      single == Cardinality(FPols(o)) = 1
      comb == a.combine /\ ~single /\ \A s \in SpwSet(o) : Cardinality(Twins(o, s)) = Cardinality(FPols(o))
  IN
  IF ~o.meta.flexpol THEN Clause(out = "ok" /\ p = o, "plain-object-changed")
  ELSE IF a.combine /\ ~single /\ dup THEN Clause(out = "error", "ambiguous-windows-combined") \cup Clause(out # "error" \/ p = o, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"conversion-refused"}
  ELSE IF p.meta.flexpol \/ {Pols(p)[k].p : k \in 1..NPol(p)} # FPols(o) \/ NPol(p) # Cardinality(FPols(o)) \/ NBlt(p) # NBlt(o)
          \/ (Len(p.cells) # 0 /\ Len(p.cells) # NBlt(p) * NFreq(p) * NPol(p)) \/ (p.cells = <<>>) # (o.cells = <<>>) THEN {"flex-pol-shape"}
  ELSE
    WellFormedClauses(p)
    \cup Clause(p.axes.blt = o.axes.blt, "blt-labels")
    \cup (IF comb
          THEN Clause(NFreq(p) * NPol(p) = NFreq(o), "windows-not-combined")
               \cup Clause(\A J \in 1..NFreq(o) : \E j \in 1..NFreq(p) :
                      /\ ChanKey(Freqs(p)[j]) = ChanKey(Freqs(o)[J]) /\ Freqs(p)[j].fp = 0
                      /\ Freqs(p)[j].spw \in Twins(o, Freqs(o)[J].spw)
                      /\ o.cells = <<>> \/ \A i \in 1..NBlt(o) : Cell(p, p.cells, i, j, PolIx(p, Freqs(o)[J].fp)) = Cell(o, o.cells, i, J, 1), "combined-cells")
               \cup Clause(\A j, m \in 1..NFreq(p) : (Freqs(p)[j].spw = Freqs(p)[m].spw)
                           = (\E s \in SpwSet(o) : FW(Freqs(p)[j]) \in Content(o, s) /\ FW(Freqs(p)[m]) \in Content(o, s)), "combined-windows")
          ELSE Clause(p.axes.freq = [j \in 1..NFreq(o) |-> [Freqs(o)[j] EXCEPT !.fp = 0]], "freq-labels")
               \cup (IF NFreq(p) # NFreq(o) \/ o.cells = <<>> THEN {} ELSE
                     Clause(\A i \in 1..NBlt(o), j \in 1..NFreq(o), k \in 1..NPol(p) :
                       Cell(p, p.cells, i, j, k) = IF Pols(p)[k].p = Freqs(o)[j].fp THEN Cell(o, o.cells, i, j, 1) ELSE PadCell, "inflated-cells")))
    \cup Diff([o EXCEPT !.axes = p.axes, !.cells = p.cells, !.meta.spws = p.meta.spws, !.meta.flexpol = FALSE], p, {})
    \cup (IF comb THEN {} ELSE Clause(p.meta.spws = o.meta.spws, "spw-array"))
=============================================================================
