-------------------------------- MODULE FLAG --------------------------------
(***************************************************************************)
(* The abstract UVFlag object (lib/vf/flag.py:projf): a cube over          *)
(*   waterfall: time, freq, pol;  baseline: blt, freq, pol;                *)
(*   antenna: ant, freq, time, pol                                         *)
(* with cells <<flag>> in flag mode and <<m, q, w>> (metric and its square *)
(* in 1e-4, weight in 1/4, and optionally the sum of squared weights) in   *)
(* metric mode.  INF stands for an infinite metric.                        *)
(***************************************************************************)
EXTENDS Cube

INF == 2147483646
MSC == 10000
WSC == 4
FN(o, ax) == Len(o.axes[ax])
FIota(n) == [k \in 1..n |-> k]
FTimes(o) == IF o.meta.type = "baseline" THEN {o.axes.blt[k].t : k \in 1..FN(o, "blt")} ELSE {o.axes.time[k].t : k \in 1..FN(o, "time")}
OrderOf(ty) == CASE ty = "baseline" -> <<"blt", "freq", "pol">> [] ty = "antenna" -> <<"ant", "freq", "time", "pol">> [] OTHER -> <<"time", "freq", "pol">>
BltAnts(o) == {o.axes.blt[k].a1 : k \in 1..FN(o, "blt")} \cup {o.axes.blt[k].a2 : k \in 1..FN(o, "blt")}

FWFClauses(o) ==
     Clause(o.order = OrderOf(o.meta.type), "wf-axis-order")
\cup Clause(\A k \in 1..Len(o.shapes) : o.shapes[k] = Dims(o), "wf-data-shape")
\cup Clause(Len(o.cells) = NCells(o), "wf-cells")
\cup Clause(\A k \in 1..Len(o.lens) : o.lens[k] = FN(o, IF o.meta.type = "baseline" THEN "blt" ELSE "time"), "wf-time-lengths")
\cup Clause(\A k \in 1..Len(o.flens) : o.flens[k] = FN(o, "freq"), "wf-freq-lengths")
\cup Clause(o.meta.Nfreqs = FN(o, "freq") /\ o.meta.Npols = FN(o, "pol"), "wf-counts")
\cup Clause(o.meta.Ntimes = Cardinality(FTimes(o)), "wf-Ntimes")
\cup Clause(o.meta.type # "baseline" \/ (o.meta.Nblts = FN(o, "blt") /\ o.meta.Nants_data = Cardinality(BltAnts(o))
                                         /\ o.meta.Nbls = Cardinality({<<o.axes.blt[k].a1, o.axes.blt[k].a2>> : k \in 1..FN(o, "blt")})), "wf-baseline-counts")
\cup Clause(o.meta.type # "antenna" \/ o.meta.Nants_data = FN(o, "ant"), "wf-antenna-count")
\cup Clause(o.meta.Nspws = Len(o.meta.spws) /\ {o.axes.freq[k].spw : k \in 1..FN(o, "freq")} \subseteq Range1(o.meta.spws) /\ DistinctSeq(o.meta.spws), "wf-spws")
\cup Clause(o.meta.Nants = Len(o.ants) /\ o.meta.nant2 = Len(o.ants), "wf-telescope")
\cup Clause(o.blok, "wf-baseline-numbers")
\cup Clause(o.stale = <<>>, "wf-arrays-of-other-mode")

FDer == {"Ntimes", "Nbls", "Nblts", "Nfreqs", "Npols", "Nspws", "Nants_data", "Nants", "nant2"}
FSameMeta(a, b, ign) == \A f \in (DOMAIN a.meta) \ (FDer \cup ign) : a.meta[f] = b.meta[f]
FDiff(want, post, ign) ==
     Clause(post.order = want.order, "axis-order")
\cup (IF post.order # want.order THEN {} ELSE
        UNION {Clause(post.axes[want.order[k]] = want.axes[want.order[k]], want.order[k] \o "-labels") : k \in 1..Len(want.order)})
\cup Clause(post.cells = want.cells, "cells")
\cup Clause(post.ants = want.ants, "antenna-table")
\cup Clause(FSameMeta(want, post, ign), "scalar-metadata")

-----------------------------------------------------------------------------
(* select *)
ConjPol(p) == CASE p = "-7" -> "-8" [] p = "-8" -> "-7" [] p = "-3" -> "-4" [] p = "-4" -> "-3" [] OTHER -> p
PairDir(o, b) == \E k \in 1..FN(o, "blt") : o.axes.blt[k].a1 = b.a1 /\ o.axes.blt[k].a2 = b.a2
PairRev(o, b) == \E k \in 1..FN(o, "blt") : o.axes.blt[k].a1 = b.a2 /\ o.axes.blt[k].a2 = b.a1
InBl(x, b) == (x.a1 = b.a1 /\ x.a2 = b.a2) \/ (x.a1 = b.a2 /\ x.a2 = b.a1)
SelPols(o, a) ==
  IF Has(a, "bls") /\ \A k \in 1..Len(a.bls) : a.bls[k].p # ""
  THEN {IF PairDir(o, a.bls[k]) THEN a.bls[k].p ELSE ConjPol(a.bls[k].p) : k \in 1..Len(a.bls)}
  ELSE IF Has(a, "pols") THEN Range1(a.pols) ELSE Range1(o.axes.pol)
RowSel(o, a) ==
  LET ax == IF o.meta.type = "baseline" THEN "blt" ELSE "time"
      L == o.axes[ax]
  IN {k \in 1..Len(L) :
        /\ (Has(a, "times") => L[k].t \in Range1(a.times))
        /\ (Has(a, "inds") => (k - 1) \in Range1(a.inds))
        /\ ((Has(a, "ants") /\ ax = "blt") => (L[k].a1 \in Range1(a.ants) /\ L[k].a2 \in Range1(a.ants)))
        /\ (Has(a, "bls") => \E b \in Range1(a.bls) : InBl(L[k], b))
        /\ (Has(a, "astr") => IF a.astr = "auto" THEN L[k].a1 = L[k].a2 ELSE IF a.astr = "cross" THEN L[k].a1 # L[k].a2 ELSE TRUE)}
FSelectFails(o, a) ==
  \/ (Has(a, "ants") /\ o.meta.type = "waterfall")
  \/ ((Has(a, "bls") \/ Has(a, "astr")) /\ o.meta.type # "baseline")
  \/ (Has(a, "astr") /\ (Has(a, "ants") \/ Has(a, "bls") \/ Has(a, "pols")))
  \/ (Has(a, "ants") /\ o.meta.type = "baseline" /\ ~(Range1(a.ants) \subseteq BltAnts(o)))
  \/ (Has(a, "ants") /\ o.meta.type = "antenna" /\ ~(Range1(a.ants) \subseteq Range1(o.axes.ant)))
  \/ (Has(a, "ainds") /\ o.meta.type = "antenna" /\ \E x \in Range1(a.ainds) : x < 0 \/ x >= FN(o, "ant"))
  \/ (Has(a, "bls") /\ o.meta.type = "baseline" /\
        (\/ \E k \in 1..Len(a.bls) : ~PairDir(o, a.bls[k]) /\ ~PairRev(o, a.bls[k])
         \/ (Has(a, "pols") /\ \A k \in 1..Len(a.bls) : a.bls[k].p # "")))
  \/ (Has(a, "times") /\ ~(Range1(a.times) \subseteq FTimes(o)))
  \/ (Has(a, "inds") /\ ~Has(a, "times") /\ (~Has(a, "ants") \/ o.meta.type # "baseline") /\ ~Has(a, "bls") /\ ~Has(a, "astr") /\
        \E x \in Range1(a.inds) : x < 0 \/ x >= FN(o, IF o.meta.type = "baseline" THEN "blt" ELSE "time"))
  \/ (Has(a, "freqs") /\ ~(Range1(a.freqs) \subseteq {o.axes.freq[k].f : k \in 1..FN(o, "freq")}))
  \/ (Has(a, "chans") /\ \E x \in Range1(a.chans) : x >= FN(o, "freq"))
  \/ ~(SelPols(o, a) \subseteq Range1(o.axes.pol))
  \/ RowSel(o, a) = {}
FSpws(o) == [o EXCEPT !.meta.spws = IF Len(o.meta.spws) = 1 THEN o.meta.spws
                                    ELSE SelectSeq(o.meta.spws, LAMBDA s : \E k \in 1..FN(o, "freq") : o.axes.freq[k].spw = s)]
FSelectPost(o, a) ==
  LET rax == IF o.meta.type = "baseline" THEN "blt" ELSE "time"
      fs == {k \in 1..FN(o, "freq") : (Has(a, "freqs") \/ Has(a, "chans")) =>
               \/ (Has(a, "freqs") /\ o.axes.freq[k].f \in Range1(a.freqs))
               \/ (Has(a, "chans") /\ (k - 1) \in Range1(a.chans))}
      ps == {k \in 1..FN(o, "pol") : o.axes.pol[k] \in SelPols(o, a)}
      x1 == Take(o, rax, IdxSeq(RowSel(o, a)))
      x2 == Take(Take(x1, "freq", IdxSeq(fs)), "pol", IdxSeq(ps))
      as == {k \in 1..FN(o, "ant") : (Has(a, "ants") => o.axes.ant[k] \in Range1(a.ants)) /\ (Has(a, "ainds") => (k - 1) \in Range1(a.ainds))}
  IN FSpws(IF o.meta.type = "antenna" THEN Take(x2, "ant", IdxSeq(as)) ELSE x2)
FSelectClauses(pre, a, out, post, same) ==
  IF FSelectFails(pre, a) THEN Clause(out = "error", "bad-selection-accepted") \cup Clause(out # "error" \/ post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"valid-selection-refused"}
  ELSE FWFClauses(post) \cup FDiff(FSelectPost(pre, a), post, {})

-----------------------------------------------------------------------------
(* combination along one axis *)
AddAx(o, ax) == CASE ax = "time" -> IF o.meta.type = "baseline" THEN "blt" ELSE "time"
                  [] ax = "baseline" -> IF o.meta.type = "baseline" THEN "blt" ELSE "none"
                  [] ax = "antenna" -> IF o.meta.type = "antenna" THEN "ant" ELSE "none"
                  [] ax = "frequency" -> "freq"
                  [] ax \in {"polarization", "pol", "jones"} -> "pol"
                  [] OTHER -> "none"
Coll(o) == FN(o, "pol") = 1 /\ o.axes.pol[1] \notin {"1", "2", "3", "4", "-1", "-2", "-3", "-4", "-5", "-6", "-7", "-8"}
AntKey(x) == [num |-> x.num, name |-> x.name, p |-> x.p]
AntTab(o) == [k \in 1..Len(o.ants) |-> AntKey(o.ants[k])]
FAddFails(a, b, ax) ==
  LET k == AddAx(a, ax) IN
  \/ a.meta.type # b.meta.type \/ a.meta.mode # b.meta.mode \/ k = "none"
  \/ a.meta.tel # b.meta.tel \/ a.meta.loc # b.meta.loc \/ a.meta.ws # b.meta.ws
  \/ (k # "freq" /\ (a.axes.freq # b.axes.freq \/ a.meta.spws # b.meta.spws))
  \/ (k # "pol" /\ a.axes.pol # b.axes.pol)
  \/ (k = "pol" /\ (Coll(a) \/ Coll(b)))
  \/ (a.meta.type # "baseline" /\ k # "time" /\ a.axes.time # b.axes.time)
  \/ (a.meta.type = "antenna" /\ k # "ant" /\ (a.axes.ant # b.axes.ant \/ AntTab(a) # AntTab(b)))
  \/ (a.meta.type = "baseline" /\ ax # "baseline" /\ AntTab(a) # AntTab(b))
  \/ (a.meta.type = "baseline" /\ LET A == a.axes.blt
                                      B == b.axes.blt
                                  IN \/ (ax # "time" /\ (Len(A) # Len(B) \/ \E i \in 1..Len(A) : A[i].t # B[i].t \/ A[i].lst # B[i].lst))
                                     \/ (ax # "baseline" /\ (Len(A) # Len(B) \/ \E i \in 1..Len(A) : A[i].a1 # B[i].a1 \/ A[i].a2 # B[i].a2)))
  \/ (k = "time" /\ Range1(a.axes.time) \cap Range1(b.axes.time) # {})
  \/ (k = "freq" /\ {a.axes.freq[i].f : i \in 1..FN(a, "freq")} \cap {b.axes.freq[i].f : i \in 1..FN(b, "freq")} # {})
FirstSeen(s) == FoldLeft(LAMBDA acc, x : IF x \in Range1(acc) THEN acc ELSE Append(acc, x), <<>>, s)
UnionAnts(a, b, wd) ==
  LET nums == {a.ants[k].num : k \in 1..Len(a.ants)} \cup {b.ants[k].num : k \in 1..Len(b.ants)}
      row(n) == IF \E k \in 1..Len(a.ants) : a.ants[k].num = n THEN a.ants[CHOOSE k \in 1..Len(a.ants) : a.ants[k].num = n]
                ELSE b.ants[CHOOSE k \in 1..Len(b.ants) : b.ants[k].num = n]
      s == IdxSeq(nums)
  IN [i \in 1..Len(s) |-> IF wd THEN row(s[i]) ELSE [row(s[i]) EXCEPT !.d = -1]]
FAddPost(a, b, ax) ==
  LET k == AddAx(a, ax)
      c == Concat(a, b, k)
      hasd(o) == o.ants[1].d # -1
      c1 == IF k = "ant" THEN [c EXCEPT !.ants = UnionAnts(a, b, hasd(a) /\ hasd(b))] ELSE c
      multi == Len(a.meta.spws) > 1 \/ Len(b.meta.spws) > 1 \/ a.meta.spws # b.meta.spws
      c2 == IF k = "freq" /\ multi THEN [c1 EXCEPT !.meta.spws = FirstSeen([i \in 1..FN(c, "freq") |-> c.axes.freq[i].spw])] ELSE c1
  IN c2
FAddClauses(a, b, ax, out, post) ==
  IF FAddFails(a, b, ax) THEN Clause(out = "error", "invalid-combination-accepted")
  ELSE IF out = "error" THEN {"valid-combination-refused"}
  ELSE FWFClauses(post) \cup FDiff(FAddPost(a, b, ax), post, {"fn"})
       \cup Clause(Range1(post.meta.fn) = Range1(a.meta.fn) \cup Range1(b.meta.fn), "filenames")

FOrClauses(a, b, out, post) ==
  IF a.meta.mode # "flag" \/ b.meta.mode # "flag" THEN Clause(out = "error", "bad-or-accepted")
  ELSE IF out = "error" THEN {"valid-or-refused"}
  ELSE FWFClauses(post) \cup FDiff([a EXCEPT !.cells = [k \in 1..Len(a.cells) |-> <<IF a.cells[k][1] = 1 \/ b.cells[k][1] = 1 THEN 1 ELSE 0>>]], post, {})

-----------------------------------------------------------------------------
(* collapsing a sequence of cells into one.  In metric mode the value is   *)
(* the weighted mean of the finite metrics.                                *)
FSum(s, f(_)) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, s)
Live(s) == SelectSeq(s, LAMBDA c : c[1] # INF)
AsMetric(s) == [k \in 1..Len(s) |-> IF Len(s[k]) = 1 THEN <<s[k][1] * MSC, s[k][1] * MSC, WSC>> ELSE s[k]]
CollapseOK(mode, method, s, r, ws) ==
  IF mode = "flag" /\ method = "or" THEN r = <<IF \E k \in 1..Len(s) : s[k][1] = 1 THEN 1 ELSE 0>>
  ELSE IF mode = "flag" /\ method = "and" THEN r = <<IF \A k \in 1..Len(s) : s[k][1] = 1 THEN 1 ELSE 0>>
  ELSE LET M == Live(AsMetric(s))
           W == FSum(M, LAMBDA c : c[3])
           ok == IF W = 0 THEN r[1] = INF
                 ELSE /\ r[1] # INF
                      /\ CASE method = "mean" -> Near(r[1] * W, FSum(M, LAMBDA c : c[3] * c[1]), W)
                           [] method = "absmean" -> Near(r[1] * W, FSum(M, LAMBDA c : c[3] * Abs(c[1])), W)
                           [] OTHER -> r[1] >= 0 /\ Near(r[2] * W, FSum(M, LAMBDA c : c[3] * c[2]), W)
       IN /\ ok
          /\ (IF mode = "flag" THEN r[3] > 0 ELSE r[3] = W)
          /\ (ws => Len(r) = 4 /\ r[4] * WSC = FSum(M, LAMBDA c : c[3] * c[3]))
Methods == {"mean", "absmean", "quadmean", "or", "and"}
MethodFails(mode, method) == method \notin Methods \/ (mode = "metric" /\ method \in {"or", "and"})
ModeAfter(mode, method) == IF mode = "flag" /\ method \in {"or", "and"} THEN "flag" ELSE "metric"
JoinPols(p) == FoldLeft(LAMBDA acc, x : acc \o "," \o x, p[1], SubSeq(p, 2, Len(p)))
\* cells of o with the last axis (pol) grouped
PolGroup(o, k) == LET n == FN(o, "pol") IN [i \in 1..n |-> o.cells[(k - 1) * n + i]]
CollapsePolClauses(pre, a, out, post) ==
  IF FN(pre, "pol") = 1 THEN Clause(out = "ok" /\ post = pre, "single-pol-object-changed")
  ELSE IF MethodFails(pre.meta.mode, a.method) THEN Clause(out = "error", "bad-collapse-accepted") \cup Clause(post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"collapse-refused"}
  ELSE LET n == FN(pre, "pol")
           nc == Len(pre.cells) \div n
       IN FWFClauses(post)
     \cup Clause(post.axes = [pre.axes EXCEPT !.pol = <<JoinPols(pre.axes.pol)>>], "labels")
     \cup Clause(post.meta.mode = ModeAfter(pre.meta.mode, a.method), "mode")
     \cup Clause(Len(post.cells) = nc /\ \A k \in 1..nc : CollapseOK(pre.meta.mode, a.method, PolGroup(pre, k), post.cells[k], FALSE), "collapsed-values")
     \cup Clause(post.ants = pre.ants /\ FSameMeta(pre, post, {"mode", "ws"}), "scalar-metadata")

\* all the cells of pre at time t, channel f and polarizations ps
TFCells(o, t, f, ps) ==
  IF o.meta.type = "antenna"
  THEN LET T == {k \in 1..FN(o, "time") : o.axes.time[k].t = t}
           tk == CHOOSE k \in T : TRUE
       IN [i \in 1..(FN(o, "ant") * Len(ps)) |-> CellAt(o, <<((i - 1) \div Len(ps)) + 1, f, tk, ps[((i - 1) % Len(ps)) + 1]>>)]
  ELSE LET rax == IF o.meta.type = "baseline" THEN "blt" ELSE "time"
           R == IdxSeq({k \in 1..FN(o, rax) : o.axes[rax][k].t = t})
       IN [i \in 1..(Len(R) * Len(ps)) |-> CellAt(o, <<R[((i - 1) \div Len(ps)) + 1], f, ps[((i - 1) % Len(ps)) + 1]>>)]
TSorted(o) == IdxSeq(FTimes(o))
TLab(o, t) == IF o.meta.type = "baseline" THEN LET k == CHOOSE k \in 1..FN(o, "blt") : o.axes.blt[k].t = t IN [t |-> t, lst |-> o.axes.blt[k].lst]
              ELSE o.axes.time[CHOOSE k \in 1..FN(o, "time") : o.axes.time[k].t = t]
ToWaterfallClauses(pre, a, out, post) ==
  LET cp == ~a.keep /\ FN(pre, "pol") > 1 IN
  IF pre.meta.type = "waterfall" /\ ~cp THEN Clause(out = "ok" /\ post = pre, "waterfall-changed")
  ELSE IF MethodFails(pre.meta.mode, a.method)
  THEN Clause(out = "error", "bad-collapse-accepted") \cup Clause(post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"collapse-refused"}
  ELSE LET ts == IF pre.meta.type = "baseline" THEN TSorted(pre) ELSE [k \in 1..FN(pre, "time") |-> pre.axes.time[k].t]
           np == FN(pre, "pol")
           ws == a.ws /\ pre.meta.type = "baseline" /\ pre.meta.mode = "metric" /\ ~cp
           groups == IF cp THEN <<FIota(np)>> ELSE [p \in 1..np |-> <<p>>]
           d == <<Len(ts), FN(pre, "freq"), Len(groups)>>
       IN FWFClauses(post)
     \cup Clause(post.meta.type = "waterfall" /\ post.meta.mode = ModeAfter(pre.meta.mode, a.method), "mode")
     \cup Clause(post.axes.time = [k \in 1..Len(ts) |-> TLab(pre, ts[k])], "time-labels")
     \cup Clause(post.axes.freq = pre.axes.freq, "freq-labels")
     \cup Clause(post.axes.pol = IF cp THEN <<JoinPols(pre.axes.pol)>> ELSE pre.axes.pol, "pol-labels")
     \cup Clause(Len(post.cells) = ProdFrom(d, 1) /\ \A t \in 1..d[1] : \A f \in 1..d[2] : \A p \in 1..d[3] :
                    CollapseOK(pre.meta.mode, a.method, TFCells(pre, ts[t], f, groups[p]), post.cells[FlatIx(d, <<t, f, p>>, 3) + 1], ws), "collapsed-values")
     \cup Clause(post.ants = pre.ants /\ FSameMeta(pre, post, {"mode", "type", "ws"}), "scalar-metadata")

\* combination of the metrics of several objects with the same labels
CombineClauses(objs, a, out, post) ==
  LET pre == objs[1] IN
  IF \E k \in 1..Len(objs) : objs[k].meta.mode # "metric" \/ Dims(objs[k]) # Dims(pre) THEN Clause(out = "error", "bad-combination-accepted")
  ELSE IF MethodFails("metric", a.method) THEN Clause(out = "error", "bad-combination-accepted")
  ELSE IF out = "error" THEN {"valid-combination-refused"}
  ELSE FWFClauses(post)
     \cup Clause(Len(post.cells) = Len(pre.cells) /\ \A k \in 1..Len(pre.cells) :
                    CollapseOK("metric", a.method, [i \in 1..Len(objs) |-> objs[i].cells[k]], post.cells[k], FALSE), "combined-values")
     \cup Clause(post.axes = pre.axes /\ post.ants = pre.ants /\ FSameMeta(pre, post, {}), "scalar-metadata")

-----------------------------------------------------------------------------
(* broadcasting to the baselines or antennas of another object u           *)
LikeFails(o, u, a) ==
  \/ o.axes.freq # u.axes.freq \/ o.meta.spws # u.meta.spws
  \/ o.meta.tel # u.meta.tel \/ o.meta.loc # u.meta.loc \/ AntTab(o) # AntTab(u)
  \/ (o.axes.pol # u.axes.pol /\ ~(a.force /\ FN(o, "pol") = 1))
TIdx(o, t) == IF \E k \in 1..FN(o, "time") : Near(o.axes.time[k].t, t, 5) THEN CHOOSE k \in 1..FN(o, "time") : Near(o.axes.time[k].t, t, 5) ELSE 0
PIdx(o, p) == IF FN(o, "pol") = 1 THEN 1 ELSE p
Keep3(c) == IF Len(c) = 4 THEN SubSeq(c, 1, 3) ELSE c
MetaKept(pre, u, post) ==
  /\ FSameMeta(pre, post, {"type", "ws"} \cup (IF pre.meta.xo = "None" THEN {"xo"} ELSE {}) \cup (IF pre.meta.inst = "None" THEN {"inst"} ELSE {}))
  /\ AntTab(post) = AntTab(pre)
  /\ \A k \in 1..Len(pre.ants) : pre.ants[k].d = -1 \/ post.ants[k].d = pre.ants[k].d
ToBaselineClauses(pre, u, a, out, post) ==
  IF pre.meta.type = "baseline" THEN Clause(out = "ok" /\ post = pre, "baseline-object-changed")
  ELSE IF u.kind # "baseline" \/ LikeFails(pre, u, a) \/ (pre.meta.type = "antenna" /\ pre.meta.mode = "metric")
  THEN Clause(out = "error", "bad-broadcast-accepted") \cup Clause(post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"broadcast-refused"}
  ELSE LET B == u.axes.blt
           d == <<Len(B), FN(pre, "freq"), Len(u.axes.pol)>>
           fl(an, f, t, p) == IF \E k \in 1..FN(pre, "ant") : pre.axes.ant[k] = an
                              THEN CellAt(pre, <<CHOOSE k \in 1..FN(pre, "ant") : pre.axes.ant[k] = an, f, t, PIdx(pre, p)>>)[1] ELSE 1
           val(b, f, p) ==
             LET t == TIdx(pre, B[b].t) IN
             IF pre.meta.type = "waterfall"
             THEN (IF t = 0 THEN (IF pre.meta.mode = "flag" THEN <<0>> ELSE <<0, 0, 0>>) ELSE Keep3(CellAt(pre, <<t, f, PIdx(pre, p)>>)))
             ELSE IF t = 0 THEN <<1>>
             ELSE <<IF fl(B[b].a1, f, t, p) = 1 \/ fl(B[b].a2, f, t, p) = 1 THEN 1 ELSE 0>>
       IN FWFClauses(post)
     \cup Clause(post.meta.type = "baseline" /\ post.meta.mode = pre.meta.mode, "mode")
     \cup Clause(post.axes = [blt |-> B, freq |-> pre.axes.freq, pol |-> u.axes.pol], "labels")
     \cup Clause(post.cells = [q \in 1..ProdFrom(d, 1) |-> LET z == q - 1 IN val((z \div (d[2] * d[3])) + 1, ((z \div d[3]) % d[2]) + 1, (z % d[3]) + 1)], "cells")
     \cup Clause(MetaKept(pre, u, post), "scalar-metadata")
ToAntennaClauses(pre, u, a, out, post) ==
  IF pre.meta.type = "antenna" THEN Clause(out = "ok" /\ post = pre, "antenna-object-changed")
  ELSE IF u.kind # "antenna" \/ pre.meta.type = "baseline" \/ LikeFails(pre, u, a)
  THEN Clause(out = "error", "bad-broadcast-accepted") \cup Clause(post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"broadcast-refused"}
  ELSE LET d == <<Len(u.axes.ant), FN(pre, "freq"), FN(pre, "time"), Len(u.axes.pol)>>
           val(q) == LET z == q - 1 IN Keep3(CellAt(pre, <<((z \div d[4]) % d[3]) + 1, ((z \div (d[4] * d[3])) % d[2]) + 1, PIdx(pre, (z % d[4]) + 1)>>))
       IN FWFClauses(post)
     \cup Clause(post.meta.type = "antenna" /\ post.meta.mode = pre.meta.mode, "mode")
     \cup Clause(post.axes = [ant |-> u.axes.ant, time |-> pre.axes.time, freq |-> pre.axes.freq, pol |-> u.axes.pol], "labels")
     \cup Clause(post.cells = [q \in 1..ProdFrom(d, 1) |-> val(q)], "cells")
     \cup Clause(MetaKept(pre, u, post), "scalar-metadata")

-----------------------------------------------------------------------------
(* mode changes *)
ToFlagClauses(pre, a, out, post) ==
  IF pre.meta.mode = "flag" THEN Clause(out = "ok" /\ post = pre, "flag-object-changed")
  ELSE IF out = "error" THEN {"conversion-refused"}
  ELSE FWFClauses(post) \cup FDiff([pre EXCEPT !.meta.mode = "flag", !.meta.ws = FALSE,
                                       !.cells = [k \in 1..Len(pre.cells) |-> <<IF pre.cells[k][1] >= a.thr THEN 1 ELSE 0>>]], post, {})
\* the waterfall a cell belongs to: rows (times) and columns (channels)
SamePol(o, mi, mj) == mi[Len(mi)] = mj[Len(mj)]
ToMetricClauses(pre, a, out, post) ==
  IF pre.meta.mode = "metric" THEN Clause(out = "ok" /\ post = pre, "metric-object-changed")
  ELSE IF out = "error" THEN {"conversion-refused"}
  ELSE LET d == Dims(pre)
           nf == FN(pre, "freq")
           ty == pre.meta.type
           rows(m) == CASE ty = "baseline" -> {k \in 1..FN(pre, "blt") : pre.axes.blt[k].a1 = pre.axes.blt[m[1]].a1 /\ pre.axes.blt[k].a2 = pre.axes.blt[m[1]].a2}
                        [] OTHER -> 1..FN(pre, "time")
           at(m, r, f) == IF ty = "antenna" THEN CellAt(pre, <<m[1], f, r, m[4]>>)[1] ELSE CellAt(pre, <<r, f, m[3]>>)[1]
           row(m) == IF ty = "antenna" THEN m[3] ELSE m[1]
           fcol(m) == \A r \in rows(m) : at(m, r, m[2]) = 1
           frow(m) == \A f \in 1..nf : at(m, row(m), f) = 1
           unf(q) == LET z == q - 1 IN IF ty = "antenna" THEN <<(z \div (d[2] * d[3] * d[4])) + 1, ((z \div (d[3] * d[4])) % d[2]) + 1, ((z \div d[4]) % d[3]) + 1, (z % d[4]) + 1>>
                                       ELSE <<(z \div (d[2] * d[3])) + 1, ((z \div d[3]) % d[2]) + 1, (z % d[3]) + 1>>
           cell(q) == LET m == unf(q)
                          v == pre.cells[q][1] * MSC
                      IN <<v, v, IF a.wgts /\ (fcol(m) \/ frow(m)) THEN 0 ELSE WSC>>
       IN FWFClauses(post) \cup FDiff([pre EXCEPT !.meta.mode = "metric", !.cells = [q \in 1..Len(pre.cells) |-> cell(q)]], post, {})

-----------------------------------------------------------------------------
(* made from a data or calibration object u: [kind, axes, cells (flags), ants, meta] *)
FromClauses(u, a, out, post) ==
  IF a.wf /\ a.copy THEN Clause(out = "error", "bad-initialization-accepted")
  ELSE IF out = "error" THEN {"initialization-refused"}
  ELSE LET mode == IF a.copy THEN "flag" ELSE a.mode
           ty == IF a.wf THEN "waterfall" ELSE u.kind
           ts == IF u.kind = "baseline" THEN IdxSeq({u.axes.blt[k].t : k \in 1..Len(u.axes.blt)}) ELSE <<>>
           tl(t) == LET k == CHOOSE k \in 1..Len(u.axes.blt) : u.axes.blt[k].t = t IN [t |-> t, lst |-> u.axes.blt[k].lst]
           wt == IF u.kind = "baseline" THEN [k \in 1..Len(ts) |-> tl(ts[k])] ELSE u.axes.time
           axes == IF a.wf THEN [time |-> wt, freq |-> u.axes.freq, pol |-> u.axes.pol] ELSE u.axes
           n == ProdFrom([k \in 1..Len(OrderOf(ty)) |-> Len(axes[OrderOf(ty)[k]])], 1)
       IN FWFClauses(post)
     \cup Clause(post.meta.type = ty /\ post.meta.mode = mode, "mode")
     \cup Clause(post.axes = axes, "labels")
     \cup Clause(post.cells = IF a.copy THEN u.cells ELSE [k \in 1..n |-> IF mode = "flag" THEN <<0>> ELSE <<0, 0, WSC>>], "cells")
     \cup Clause(post.ants = u.ants /\ \A f \in DOMAIN u.meta : post.meta[f] = u.meta[f], "scalar-metadata")
     \cup Clause(post.meta.label = a.label, "label")
\* fraction of flags per time and channel: r.vals in 1e-4
F2WClauses(u, a, out, r) ==
  IF out = "error" THEN {"flags2waterfall-refused"}
  ELSE LET o == [order |-> OrderOf(u.kind), axes |-> u.axes, cells |-> u.cells, meta |-> [type |-> u.kind]]
           ts == IF u.kind = "baseline" THEN TSorted(o) ELSE [k \in 1..FN(o, "time") |-> o.axes.time[k].t]
           np == FN(o, "pol")
           groups == IF a.keep THEN [p \in 1..np |-> <<p>>] ELSE <<FIota(np)>>
           d == <<Len(ts), FN(o, "freq"), Len(groups)>>
       IN Clause(r.shape = IF a.keep THEN d ELSE <<d[1], d[2]>>, "returned-shape")
     \cup Clause(Len(r.vals) = ProdFrom(d, 1) /\ \A t \in 1..d[1] : \A f \in 1..d[2] : \A p \in 1..d[3] :
            LET s == TFCells(o, ts[t], f, groups[p]) IN Near(r.vals[FlatIx(d, <<t, f, p>>, 3) + 1] * Len(s), MSC * FSum(s, LAMBDA c : c[1]), Len(s)), "flag-fractions")

-----------------------------------------------------------------------------
(* files *)
FWriteClauses(o, exists, a, out, post) ==
  IF exists /\ ~a.clobber THEN Clause(out = "error", "file-overwritten") \cup Clause(post = o, "object-changed")
  ELSE IF out = "error" THEN {"valid-write-refused"} ELSE Clause(post = o, "object-changed")
RECURSIVE ReadFold(_, _)
ReadFold(fs, acc) == IF fs = <<>> THEN acc ELSE ReadFold(Tail(fs), FAddPost(acc, Head(fs), "time"))
RECURSIVE ReadFails(_, _)
ReadFails(fs, acc) == IF fs = <<>> THEN FALSE ELSE FAddFails(acc, Head(fs), "time") \/ ReadFails(Tail(fs), FAddPost(acc, Head(fs), "time"))
FReadClauses(fs, names, out, post) ==
  IF ReadFails(Tail(fs), fs[1]) THEN Clause(out = "error", "invalid-combination-accepted")
  ELSE IF out = "error" THEN {"valid-read-refused"}
  ELSE FWFClauses(post) \cup FDiff(ReadFold(Tail(fs), fs[1]), post, {"fn"}) \cup Clause(Range1(post.meta.fn) = Range1(names), "filenames")
=============================================================================
