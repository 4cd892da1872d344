-------------------------------- MODULE CAL --------------------------------
(***************************************************************************)
(* The abstract UVCal object (lib/vf/cal.py:projc): a cube over            *)
(*   ant [n]  freq [f, w, spw, fj, lo, hi]  time [t, lo, hi, lst, llo,     *)
(*   lhi, it, scan, ref, pcid, pc, pcr]  jones [j]                         *)
(* with cells <<re, im, flag, quality>> (delays: <<delay, 0, flag, q>>)    *)
(* and a second, antenna-less cube tq for the total quality.  For wide     *)
(* band solutions the freq axis holds spectral windows.                    *)
(***************************************************************************)
EXTENDS UVD

KAnts(o) == o.axes.ant
KTimes(o) == o.axes.time
KJones(o) == o.axes.jones
NKA(o) == Len(o.axes.ant)
NKF(o) == Len(o.axes.freq)
NKT(o) == Len(o.axes.time)
NKJ(o) == Len(o.axes.jones)

\* the total quality as a cube of its own
TQCube(o) == [order |-> <<"freq", "time", "jones">>, axes |-> [freq |-> o.axes.freq, time |-> o.axes.time, jones |-> o.axes.jones], cells |-> o.tq]
KTake(o, ax, idx) ==
  IF ax = "ant" THEN Take(o, ax, idx)
  ELSE [Take(o, ax, idx) EXCEPT !.tq = TakeCells(TQCube(o), ax, idx)]

KWFClauses(o) ==
     Clause(\A k \in 1..Len(o.shape) : o.shape[k] = <<NKA(o), NKF(o), NKT(o), NKJ(o)>>, "wf-data-shape")
\cup Clause(\A k \in 1..Len(o.tqshape) : o.tqshape[k] = <<NKF(o), NKT(o), NKJ(o)>>, "wf-total-quality-shape")
\cup Clause(o.cells = <<>> \/ Len(o.cells) = NKA(o) * NKF(o) * NKT(o) * NKJ(o), "wf-cells")
\cup Clause(o.tq = <<>> \/ Len(o.tq) = NKF(o) * NKT(o) * NKJ(o), "wf-total-quality")
\cup Clause(\A k \in 1..Len(o.tlens) : o.tlens[k] = NKT(o), "wf-time-lengths")
\cup Clause(\A k \in 1..Len(o.slens) : o.slens[k] = o.meta.Nspws, "wf-spw-lengths")
\cup Clause(\A k \in 1..Len(o.flens) : o.flens[k] = NKF(o), "wf-freq-lengths")
\cup Clause(o.meta.Nants = NKA(o) /\ o.meta.Ntimes = NKT(o) /\ o.meta.Njones = NKJ(o)
            /\ o.meta.Nfreqs = (IF o.meta.wide THEN 1 ELSE NKF(o)), "wf-axis-counts")
\cup Clause(o.meta.Nspws = Len(o.meta.spws) /\ DistinctSeq(o.meta.spws), "wf-Nspws")
\cup Clause({Freqs(o)[j].spw : j \in 1..NKF(o)} = Range1(o.meta.spws), "wf-spws-used")
\cup Clause(DistinctSeq(KAnts(o)) /\ DistinctSeq(KJones(o)), "wf-labels-distinct")
\cup Clause({KAnts(o)[k].n : k \in 1..NKA(o)} \subseteq {o.tel.ants[k].num : k \in 1..Len(o.tel.ants)}, "wf-antennas-known")
\cup Clause(\A i \in 1..NKT(o) : KTimes(o)[i].pc # "?missing", "wf-phase-center-in-catalog")
\cup Clause(NKA(o) > 0 /\ NKF(o) > 0 /\ NKT(o) > 0 /\ NKJ(o) > 0, "wf-not-empty")

KDerived == {"Nants", "Nfreqs", "Ntimes", "Njones", "Nspws", "spws"}
KDiff(want, post, ignoremeta) ==
     Clause(post.axes.ant = want.axes.ant, "antenna-labels")
\cup Clause(post.axes.freq = want.axes.freq, "freq-labels")
\cup Clause(post.axes.time = want.axes.time, "time-labels")
\cup Clause(post.axes.jones = want.axes.jones, "jones-labels")
\cup Clause(post.cells = want.cells, "cells")
\cup Clause(post.tq = want.tq, "total-quality")
\cup Clause(post.meta.spws = want.meta.spws \/ "spws" \in ignoremeta, "spw-array")
\cup Clause(SameMetaExcept(want, post, KDerived \cup ignoremeta), "scalar-metadata")
\cup Clause(post.tel = want.tel, "telescope")
\cup Clause(post.cat = want.cat \/ "cat" \in ignoremeta, "catalog")

-----------------------------------------------------------------------------
(* select *)
TwoPi7 == 62831853
\* circular arcs [a, b] in LST ticks (a > b: through 2 pi)
InArc(x, a, b) == IF a <= b THEN x >= a /\ x <= b ELSE x >= a \/ x <= b
ArcsMeet(a, b, c, d) == InArc(a, c, d) \/ InArc(c, a, b)
KTimeIn(o, x, tk) == IF o.meta.trange THEN x.lo <= tk /\ tk <= x.hi ELSE Near(x.t, tk, TTol)
KLstIn(o, x, lk) == IF o.meta.trange THEN InArc(lk, x.llo, x.lhi) ELSE Near(x.lst, lk, 1)
KSelTimes(o, a) ==
  {i \in 1..NKT(o) :
     LET x == KTimes(o)[i] IN
     /\ Has(a, "times") => \E k \in 1..Len(a.times) : KTimeIn(o, x, a.times[k])
     /\ Has(a, "trange") => IF o.meta.trange THEN x.lo < a.trange[2] /\ a.trange[1] < x.hi ELSE x.t >= a.trange[1] /\ x.t <= a.trange[2]
     /\ Has(a, "lsts") => \E k \in 1..Len(a.lsts) : KLstIn(o, x, a.lsts[k])
     /\ Has(a, "lrange") => IF o.meta.trange THEN ArcsMeet(x.llo, x.lhi, a.lrange[1], a.lrange[2]) ELSE InArc(x.lst, a.lrange[1], a.lrange[2])
     /\ Has(a, "pcids") => x.pcid \in Range1(a.pcids)
     /\ Has(a, "names") => x.pc \in Range1(a.names)}
KSpwCrit(o, a) == Has(a, "spws") /\ Len(o.meta.spws) > 1
KSelFreqs(o, a) ==
  {j \in 1..NKF(o) :
     LET x == Freqs(o)[j]
         any == KSpwCrit(o, a) \/ Has(a, "freqs") \/ Has(a, "chans")
     IN /\ any => \/ KSpwCrit(o, a) /\ x.spw \in Range1(a.spws)
                  \/ Has(a, "freqs") /\ x.f \in Range1(a.freqs)
                  \/ Has(a, "chans") /\ (j - 1) \in Range1(a.chans)
        /\ (o.meta.flexj /\ Has(a, "jones")) => x.fj \in Range1(a.jones)}
KSelAnts(o, a) ==
  {k \in 1..NKA(o) :
     /\ Has(a, "ants") => KAnts(o)[k].n \in Range1(a.ants)
     /\ Has(a, "antnames") => KAnts(o)[k].n \in {AntNumOf(o, nm) : nm \in Range1(a.antnames)}}
KSelJones(o, a) == {k \in 1..NKJ(o) : (Has(a, "jones") /\ ~o.meta.flexj) => KJones(o)[k].j \in Range1(a.jones)}
JonesIn(o) == IF o.meta.flexj THEN {Freqs(o)[j].fj : j \in 1..NKF(o)} ELSE {KJones(o)[k].j : k \in 1..NKJ(o)}
AntNums(o) == {KAnts(o)[k].n : k \in 1..NKA(o)}
KSelectFails(o, a) ==
  \/ Has(a, "ants") /\ ~(Range1(a.ants) \subseteq AntNums(o))
  \/ Has(a, "antnames") /\ ~(Range1(a.antnames) \subseteq TelNames(o))
  \/ Has(a, "antnames") /\ Range1(a.antnames) \subseteq TelNames(o) /\ \E nm \in Range1(a.antnames) : AntNumOf(o, nm) \notin AntNums(o)
  \/ Has(a, "ants") /\ Has(a, "antnames")
  \/ Cardinality(TimeArgs(a)) > 1
  \/ Has(a, "times") /\ \E k \in 1..Len(a.times) : ~\E i \in 1..NKT(o) : KTimeIn(o, KTimes(o)[i], a.times[k])
  \/ Has(a, "lsts") /\ \E k \in 1..Len(a.lsts) : ~\E i \in 1..NKT(o) : KLstIn(o, KTimes(o)[i], a.lsts[k])
  \/ Has(a, "pcids") /\ Has(a, "names")
  \/ (Has(a, "pcids") \/ Has(a, "names")) /\ ~o.meta.haspc
  \/ o.meta.wide /\ (Has(a, "freqs") \/ Has(a, "chans"))
  \/ Has(a, "chans") /\ \E k \in 1..Len(a.chans) : a.chans[k] >= NKF(o)
  \/ Has(a, "freqs") /\ \E k \in 1..Len(a.freqs) : ~\E j \in 1..NKF(o) : Freqs(o)[j].f = a.freqs[k]
  \/ KSpwCrit(o, a) /\ ~(Range1(a.spws) \subseteq Range1(o.meta.spws))
  \/ Has(a, "jones") /\ ~(Range1(a.jones) \subseteq JonesIn(o))
  \/ KSelTimes(o, a) = {} \/ KSelFreqs(o, a) = {} \/ KSelAnts(o, a) = {} \/ KSelJones(o, a) = {}
KSelectPost(o, a) ==
  LET s1 == KTake(o, "ant", IdxSeq(KSelAnts(o, a)))
      s2 == KTake(s1, "freq", IdxSeq(KSelFreqs(o, a)))
      s3 == KTake(s2, "time", IdxSeq(KSelTimes(o, a)))
      s4 == KTake(s3, "jones", IdxSeq(KSelJones(o, a)))
      used == {Freqs(s4)[j].spw : j \in 1..NKF(s4)}
  IN [s4 EXCEPT !.meta.spws = PickIdx(o.meta.spws, IdxSeq({k \in 1..Len(o.meta.spws) : o.meta.spws[k] \in used}))]
KSelectClauses(pre, a, out, post) ==
  IF KSelectFails(pre, a)
  THEN Clause(out = "error", "bad-selection-accepted") \cup Clause(out # "error" \/ post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"valid-selection-refused"}
  ELSE KWFClauses(post) \cup KDiff(KSelectPost(pre, a), post, {})

-----------------------------------------------------------------------------
(* reordering *)
\* Jones names in alphabetical order, as numbers
JNameSeq(o) == IF o.tel.xo = "east" THEN <<-5, -7, -8, -6, -2, -4, -3, -1>> ELSE <<-6, -8, -7, -5, -2, -4, -3, -1>>
RankIn(seq, x) == CHOOSE k \in 1..Len(seq) : seq[k] = x
KRank(o, ax, key, x, a) ==
  CASE ax = "ant" /\ key = "number" -> x.n
    [] ax = "ant" /\ key = "name" -> a.rank[ToString(x.n)]
    [] ax = "time" -> IF o.meta.trange THEN x.lo ELSE x.t
    [] ax = "jones" /\ key = "number" -> x.j
    [] ax = "jones" /\ key = "name" -> RankIn(JNameSeq(o), x.j)
    [] ax = "freq" /\ key = "number" -> x.spw
    [] ax = "freq" /\ key = "freq" -> x.lo \div 1000 + x.hi \div 1000
KReorderClauses(pre, a, out, post) ==
  IF out = "error" THEN {"reorder-refused"}
  ELSE LET ax == a.axis
           L == pre.axes[ax]
           idx == IF Has(a, "index") THEN [k \in 1..Len(a.index) |-> a.index[k] + 1]
                  ELSE IF ax = "freq" /\ ~pre.meta.wide THEN ReorderFreqIdx(pre, a)
                  ELSE LET r == [k \in 1..Len(L) |-> KRank(pre, ax, a.key, L[k], a)]
                       IN SortSeq([k \in 1..Len(L) |-> k], LAMBDA x, y : IF a.rev THEN r[x] > r[y] ELSE r[x] < r[y])
           t == KTake(pre, ax, idx)
           want == IF ax = "freq" /\ pre.meta.wide THEN [t EXCEPT !.meta.spws = [k \in 1..NKF(t) |-> Freqs(t)[k].spw]] ELSE t
       IN KWFClauses(post) \cup KDiff(want, post, IF pre.meta.wide THEN {} ELSE {"spws"})

-----------------------------------------------------------------------------
(* accessors *)
KPick(o, n, js) ==   \* the cells of antenna n, jones indices js, over freq and time
  LET k == CHOOSE k \in 1..NKA(o) : KAnts(o)[k].n = n
      c == TakeCells(Take(o, "ant", <<k>>), "jones", js)
  IN c
Part4(c, what) == CASE what = "data" -> <<c[1], c[2]>> [] what = "flag" -> <<c[3]>> [] what = "qual" -> <<c[4]>>
KGetClauses(o, a, out, r) ==
  LET bad == \/ a.ant \notin AntNums(o)
             \/ Has(a, "j") /\ ~\E k \in 1..NKJ(o) : KJones(o)[k].j = a.j
             \/ a.what = "data" /\ o.meta.type # "gain"
  IN IF bad THEN Clause(out = "error", "unknown-key-accepted")
     ELSE IF out = "error" THEN {"valid-key-refused"}
     ELSE LET js == IF Has(a, "j") THEN <<CHOOSE k \in 1..NKJ(o) : KJones(o)[k].j = a.j>> ELSE [k \in 1..NKJ(o) |-> k]
              want == KPick(o, a.ant, js)
              shp == IF Has(a, "j") \/ (a.squeeze /\ NKJ(o) = 1) THEN <<NKF(o), NKT(o)>> ELSE <<NKF(o), NKT(o), NKJ(o)>>
          IN Clause(r.shape = shp, "returned-shape")
             \cup Clause(r.vals = [k \in 1..Len(want) |-> Part4(want[k], a.what)], "returned-cells")
KInfoClauses(o, a, out, r) ==
  IF out = "error" THEN {"listing-refused"} ELSE
     Clause(\A k \in 1..NKA(o) : r.ant2ind[k] = k - 1, "ant2ind")
\cup Clause(\A k \in 1..NKJ(o) : r.jpol2ind[k] = k - 1, "jpol2ind")
\cup Clause(\A k \in 1..Len(r.has) : r.has[k].has = (r.has[k].ant \in AntNums(o) /\ \E m \in 1..NKJ(o) : KJones(o)[m].j = r.has[k].j), "key-exists")
\cup Clause(\A i \in 1..NKT(o) : IF o.meta.trange THEN Near(2 * (r.times[i] - KTimes(o)[i].lo), KTimes(o)[i].hi - KTimes(o)[i].lo, 4)
                                 ELSE r.times[i] = KTimes(o)[i].t, "time-array")
\cup Clause(\A i \in 1..NKT(o) : IF o.meta.trange THEN InArc(r.lsts[i], KTimes(o)[i].llo, KTimes(o)[i].lhi)
                                      /\ NearMod(2 * ((r.lsts[i] - KTimes(o)[i].llo) % TwoPi7), (KTimes(o)[i].lhi - KTimes(o)[i].llo) % TwoPi7, TwoPi7, 8)
                                 ELSE r.lsts[i] = KTimes(o)[i].lst, "lst-array")

-----------------------------------------------------------------------------
(* combination *)
KNormT(x) == [x EXCEPT !.pcid = 0]
KTKey(o, x) == IF o.meta.trange THEN <<x.lo, x.hi>> ELSE <<x.t, 0>>
KFKey(x) == <<x.f, x.spw>>
AKeys(o) == [k \in 1..NKA(o) |-> KAnts(o)[k].n]
KFKeys(o) == [k \in 1..NKF(o) |-> KFKey(Freqs(o)[k])]
TKeys(o) == [k \in 1..NKT(o) |-> KTKey(o, KTimes(o)[k])]
JKeys(o) == [k \in 1..NKJ(o) |-> KJones(o)[k].j]
Meet(s, t) == Range1(s) \cap Range1(t) # {}
SharedSame(ka, la, kb, lb) == \A i \in 1..Len(ka) : LET m == PosIn(kb, ka[i]) IN m # 0 => la[i] = lb[m]
KCompatible(a, b) ==
  /\ a.meta.type = b.meta.type /\ a.meta.wide = b.meta.wide /\ a.meta.conv = b.meta.conv /\ a.meta.style = b.meta.style
  /\ a.meta.trange = b.meta.trange /\ a.meta.flexj = b.meta.flexj /\ a.meta.haspc = b.meta.haspc
  /\ a.meta.refname = b.meta.refname /\ a.meta.hasref = b.meta.hasref /\ a.meta.hasscan = b.meta.hasscan
  /\ a.tel = b.tel
  /\ SharedSame(TKeys(a), [i \in 1..NKT(a) |-> [p |-> <<KTimes(a)[i].pc, KTimes(a)[i].pcr, KTimes(a)[i].ref, KTimes(a)[i].scan>>]],
                TKeys(b), [i \in 1..NKT(b) |-> [p |-> <<KTimes(b)[i].pc, KTimes(b)[i].pcr, KTimes(b)[i].ref, KTimes(b)[i].scan>>]])
RangesOverlap(a, b) ==
  a.meta.trange /\ \E i \in 1..NKT(a) : \E j \in 1..NKT(b) :
     KTimes(a)[i].lo < KTimes(b)[j].hi /\ KTimes(b)[j].lo < KTimes(a)[i].hi
KAddFails(a, b) ==
  \/ ~KCompatible(a, b)
  \/ RangesOverlap(a, b)
  \/ Meet(AKeys(a), AKeys(b)) /\ Meet(KFKeys(a), KFKeys(b)) /\ Meet(TKeys(a), TKeys(b)) /\ Meet(JKeys(a), JKeys(b))
KCell(o, i, j, t, k) == o.cells[(((i - 1) * NKF(o) + (j - 1)) * NKT(o) + (t - 1)) * NKJ(o) + k]
KTq(o, j, t, k) == IF o.tq = <<>> THEN 0 ELSE o.tq[((j - 1) * NKT(o) + (t - 1)) * NKJ(o) + k]
QFix(c, hasq) == IF hasq /\ c[4] = -1 THEN <<c[1], c[2], c[3], 0>> ELSE c
KUnionClauses(a, b, post) ==
  LET pos(keys, ks) == [i \in 1..Len(ks) |-> PosIn(keys, ks[i])]
      hasq == a.meta.hasq \/ b.meta.hasq
      ia == pos(AKeys(a), AKeys(post))
      ib == pos(AKeys(b), AKeys(post))
      fa == pos(KFKeys(a), KFKeys(post))
      fb == pos(KFKeys(b), KFKeys(post))
      ta == pos(TKeys(a), TKeys(post))
      tb == pos(TKeys(b), TKeys(post))
      ja == pos(JKeys(a), JKeys(post))
      jb == pos(JKeys(b), JKeys(post))
      want(i, j, t, k) ==
        IF ib[i] # 0 /\ fb[j] # 0 /\ tb[t] # 0 /\ jb[k] # 0 THEN QFix(KCell(b, ib[i], fb[j], tb[t], jb[k]), hasq)
        ELSE IF ia[i] # 0 /\ fa[j] # 0 /\ ta[t] # 0 /\ ja[k] # 0 THEN QFix(KCell(a, ia[i], fa[j], ta[t], ja[k]), hasq)
        ELSE <<0, 0, 1, IF hasq THEN 0 ELSE -1>>
      wanttq(j, t, k) ==
        IF fb[j] # 0 /\ tb[t] # 0 /\ jb[k] # 0 /\ b.tq # <<>> THEN KTq(b, fb[j], tb[t], jb[k])
        ELSE IF fa[j] # 0 /\ ta[t] # 0 /\ ja[k] # 0 /\ a.tq # <<>> THEN KTq(a, fa[j], ta[t], ja[k]) ELSE 0
      same(p, x, y) == Range1(p) = Range1(x) \cup Range1(y) /\ DistinctSeq(p)
      newants == \E k \in 1..NKA(b) : AKeys(b)[k] \notin Range1(AKeys(a))
      axesok == /\ same(AKeys(post), AKeys(a), AKeys(b)) /\ same(KFKeys(post), KFKeys(a), KFKeys(b))
                /\ same(TKeys(post), TKeys(a), TKeys(b)) /\ same(JKeys(post), JKeys(a), JKeys(b))
  IN IF ~axesok THEN {"union-of-axes"}
     ELSE Clause(\A j \in 1..NKF(post) : Freqs(post)[j] = IF fa[j] # 0 THEN Freqs(a)[fa[j]] ELSE Freqs(b)[fb[j]], "freq-labels")
     \cup Clause(\A t \in 1..NKT(post) : KNormT(KTimes(post)[t]) = IF ta[t] # 0 THEN KNormT(KTimes(a)[ta[t]]) ELSE KNormT(KTimes(b)[tb[t]]), "time-labels")
     \cup Clause(IF a.cells = <<>> THEN post.cells = <<>>
                 ELSE /\ Len(post.cells) = NKA(post) * NKF(post) * NKT(post) * NKJ(post)
                      /\ \A i \in 1..NKA(post) : \A j \in 1..NKF(post) : \A t \in 1..NKT(post) : \A k \in 1..NKJ(post) :
                           KCell(post, i, j, t, k) = want(i, j, t, k), "cells")
     \cup Clause(IF newants \/ (a.tq = <<>> /\ b.tq = <<>>) \/ a.cells = <<>> THEN post.tq = <<>>
                 ELSE /\ Len(post.tq) = NKF(post) * NKT(post) * NKJ(post)
                      /\ \A j \in 1..NKF(post) : \A t \in 1..NKT(post) : \A k \in 1..NKJ(post) :
                           KTq(post, j, t, k) = wanttq(j, t, k), "total-quality")
     \cup Clause(post.tel = a.tel, "telescope")
     \cup Clause(SameMetaExcept(a, post, KDerived \cup {"xkw", "hasq"}), "scalar-metadata")
KAddClauses(a, b, out, post) ==
  IF KAddFails(a, b) THEN Clause(out = "error", "invalid-combination-accepted")
  ELSE IF out = "error" THEN {"valid-combination-refused"}
  ELSE KWFClauses(post) \cup KUnionClauses(a, b, post)

KNorm(o) == [o EXCEPT !.axes.time = [i \in 1..NKT(o) |-> KNormT(KTimes(o)[i])]]
KQ(o, hasq) == [o EXCEPT !.cells = [k \in 1..Len(o.cells) |-> QFix(o.cells[k], hasq)]]
ZeroTQ(o) == [o EXCEPT !.tq = IF o.tq = <<>> THEN [k \in 1..(NKF(o) * NKT(o) * NKJ(o)) |-> 0] ELSE o.tq]
KConcat2(a, b, ax) ==
  IF ax = "ant" THEN [Concat(a, b, ax) EXCEPT !.tq = <<>>]
  ELSE [Concat(a, b, ax) EXCEPT !.tq = IF a.tq = <<>> THEN <<>> ELSE ConcatCells(TQCube(a), TQCube(b), ax)]
\* labels of the other axes must agree
KInterspersed(ps) ==
  LET all == FoldLeft(LAMBDA acc, p : acc \o p, <<>>, [k \in 1..Len(ps) |-> [i \in 1..NKF(ps[k]) |-> Freqs(ps[k])[i].spw]])
      n == Len(all)
  IN \E i \in 1..n : \E j \in 1..n : i + 1 < j /\ all[i] = all[j] /\ all[i + 1] # all[i]
KConcatFails(ps, ax) ==
  \/ ax = "freq" /\ ~ps[1].meta.wide /\ KInterspersed(ps)
  \/ \E k \in 2..Len(ps) :
     LET a == KNorm(ps[1])
         b == KNorm(ps[k])
     IN \/ \E x \in {"ant", "freq", "time", "jones"} \ {ax} : a.axes[x] # b.axes[x]
        \/ a.meta.type # b.meta.type \/ a.meta.wide # b.meta.wide \/ a.meta.conv # b.meta.conv \/ a.meta.style # b.meta.style
        \/ a.meta.trange # b.meta.trange \/ a.meta.flexj # b.meta.flexj \/ a.meta.haspc # b.meta.haspc \/ a.meta.refname # b.meta.refname
        \/ a.tel # b.tel
KConcatClauses(parts, ax, out, post) ==
  LET hasq == \E k \in 1..Len(parts) : parts[k].meta.hasq
      hastq == \E k \in 1..Len(parts) : parts[k].tq # <<>>
      prep(o) == LET q == KQ(KNorm(o), hasq) IN IF hastq /\ ~o.meta.only THEN ZeroTQ(q) ELSE q
      want == FoldLeft(LAMBDA acc, p : KConcat2(acc, prep(p), ax), prep(parts[1]), SubSeq(parts, 2, Len(parts)))
      got == KNorm(post)
  IN IF KConcatFails(parts, ax) THEN Clause(out = "error", "invalid-combination-accepted")
     ELSE IF out = "error" THEN {"valid-concat-refused"}
     ELSE KWFClauses(post)
       \cup Clause(got.axes = want.axes, "labels")
       \cup Clause(got.cells = want.cells, "cells")
       \cup Clause(got.tq = want.tq, "total-quality")
       \cup Clause(got.tel = want.tel, "telescope")
       \cup Clause(SameMetaExcept(parts[1], post, KDerived \cup {"xkw", "hasq"}), "scalar-metadata")
KSameUpToIds(a, b) == [KNorm(a) EXCEPT !.cat = <<>>] = [KNorm(b) EXCEPT !.cat = <<>>]

-----------------------------------------------------------------------------
(* per-window Jones terms ("flex-Jones") *)
\* positions: new freq index (j - 1) * nf + f  <->  old (f, jones j)
ToFlexClauses(pre, out, post) ==
  IF pre.meta.flexj THEN Clause(out = "error", "already-flex-jones") \cup Clause(post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"conversion-refused"}
  ELSE LET nf == NKF(pre)
           nj == NKJ(pre)
           n == nf * nj
           lab(q) == LET f == ((q - 1) % nf) + 1
                         j == ((q - 1) \div nf) + 1
                     IN [Freqs(pre)[f] EXCEPT !.fj = KJones(pre)[j].j, !.spw = 0]
           spwOld(q) == Freqs(pre)[((q - 1) % nf) + 1].spw
           jOf(q) == ((q - 1) \div nf) + 1
           okaxis == NKF(post) = n /\ \A q \in 1..n : [Freqs(post)[q] EXCEPT !.spw = 0] = lab(q)
           nt == NKT(pre)
       IN KWFClauses(post) \cup
          (IF ~okaxis THEN {"freq-labels"} ELSE
            Clause(\A q \in 1..n : jOf(q) = 1 => Freqs(post)[q].spw = spwOld(q), "first-jones-keeps-windows")
       \cup Clause(\A q \in 1..n : \A r \in 1..n : (Freqs(post)[q].spw = Freqs(post)[r].spw) = (jOf(q) = jOf(r) /\ spwOld(q) = spwOld(r)), "windows-one-to-one")
       \cup Clause(KJones(post) = <<[j |-> 0]>> /\ post.meta.flexj, "jones-labels")
       \cup Clause(IF pre.cells = <<>> THEN post.cells = <<>>
                   ELSE /\ Len(post.cells) = Len(pre.cells)
                        /\ \A i \in 1..NKA(pre) : \A q \in 1..n : \A t \in 1..nt :
                             post.cells[((i - 1) * n + (q - 1)) * nt + t] = KCell(pre, i, ((q - 1) % nf) + 1, t, jOf(q)), "cells")
       \cup Clause(IF pre.tq = <<>> THEN post.tq = <<>>
                   ELSE /\ Len(post.tq) = Len(pre.tq)
                        /\ \A q \in 1..n : \A t \in 1..nt : post.tq[(q - 1) * nt + t] = KTq(pre, ((q - 1) % nf) + 1, t, jOf(q)), "total-quality")
       \cup Clause(post.axes.ant = pre.axes.ant /\ post.axes.time = pre.axes.time, "other-labels")
       \cup Clause(SameMetaExcept(pre, post, KDerived \cup {"flexj"}) /\ post.tel = pre.tel /\ post.cat = pre.cat, "scalar-metadata"))

\* the channels of a window, without its number and Jones term
WinChans(o, s) == LET idx == SpwMembers(o, s) IN [k \in 1..Len(idx) |-> [Freqs(o)[idx[k]] EXCEPT !.spw = 0, !.fj = 0]]
FJOf(o, s) == Freqs(o)[CHOOSE j \in 1..NKF(o) : Freqs(o)[j].spw = s].fj
WinGroup(o, s) == {r \in Range1(o.meta.spws) : WinChans(o, r) = WinChans(o, s)}
AllFJ(o) == {Freqs(o)[j].fj : j \in 1..NKF(o)}
DupGroup(o) == \E s \in Range1(o.meta.spws) : \E r \in WinGroup(o, s) : r # s /\ FJOf(o, r) = FJOf(o, s)
PartialGroup(o) == \E s \in Range1(o.meta.spws) : {FJOf(o, r) : r \in WinGroup(o, s)} # AllFJ(o)
FromFlexClauses(pre, a, out, post) ==
  IF ~pre.meta.flexj THEN Clause(out = "ok" /\ post = pre, "not-flex-jones-changed")
  ELSE IF a.combine /\ DupGroup(pre) /\ ~PartialGroup(pre)
       THEN Clause(out = "error", "ambiguous-windows-combined") \cup Clause(out # "error" \/ post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN Clause(a.combine /\ DupGroup(pre), "conversion-refused") \cup Clause(post = pre, "failed-call-changed-object")
  ELSE LET comb == a.combine /\ ~PartialGroup(pre)
           spws == Range1(pre.meta.spws)
           firstOf(s) == IF comb THEN LET G == {k \in 1..Len(pre.meta.spws) : pre.meta.spws[k] \in WinGroup(pre, s)}
                                      IN pre.meta.spws[CHOOSE k \in G : \A m \in G : k <= m]
                         ELSE s
           kept == {firstOf(s) : s \in spws}
           nt == NKT(pre)
           \* old window feeding (kept window s, jones j); none: 0-channel marker
           src(s, j) == {r \in spws : firstOf(r) = s /\ FJOf(pre, r) = j}
           \* within-window rank of post channel q
           rank(q) == Cardinality({m \in 1..q : Freqs(post)[m].spw = Freqs(post)[q].spw})
           oldix(q, j) == LET S == src(Freqs(post)[q].spw, j) IN
                          IF S = {} THEN 0 ELSE SpwMembers(pre, CHOOSE r \in S : TRUE)[rank(q)]
           blank(i, t) == <<0, 0, 1, IF pre.meta.hasq THEN 0 ELSE -1>>
           axok == /\ Range1(post.meta.spws) = kept /\ DistinctSeq(post.meta.spws)
                   /\ \A s \in kept : WinChans(post, s) = WinChans(pre, s)
                   /\ {KJones(post)[k].j : k \in 1..NKJ(post)} = AllFJ(pre) /\ ~post.meta.flexj
       IN KWFClauses(post) \cup
          (IF ~axok THEN {"window-labels"} ELSE
            Clause(IF pre.cells = <<>> THEN post.cells = <<>>
                   ELSE /\ Len(post.cells) = NKA(post) * NKF(post) * NKT(post) * NKJ(post)
                        /\ \A i \in 1..NKA(post) : \A q \in 1..NKF(post) : \A t \in 1..nt : \A k \in 1..NKJ(post) :
                             LET x == oldix(q, KJones(post)[k].j) IN
                             KCell(post, i, q, t, k) = IF x = 0 THEN blank(i, t) ELSE KCell(pre, i, x, t, 1), "cells")
       \cup Clause(IF pre.tq = <<>> THEN post.tq = <<>>
                   ELSE /\ Len(post.tq) = NKF(post) * NKT(post) * NKJ(post)
                        /\ \A q \in 1..NKF(post) : \A t \in 1..nt : \A k \in 1..NKJ(post) :
                             LET x == oldix(q, KJones(post)[k].j) IN KTq(post, q, t, k) = IF x = 0 THEN 0 ELSE KTq(pre, x, t, 1), "total-quality")
       \cup Clause(post.axes.ant = pre.axes.ant /\ post.axes.time = pre.axes.time, "other-labels")
       \cup Clause(SameMetaExcept(pre, post, KDerived \cup {"flexj"}) /\ post.tel = pre.tel /\ post.cat = pre.cat, "scalar-metadata"))

-----------------------------------------------------------------------------
(* delays to gains: the driver uses delays that are multiples of 1/8 turn per 100 kHz *)
Cos8 == <<1000000, 707107, 0, -707107, -1000000, -707107, 0, 707107>>
Sin8 == <<0, 707107, 1000000, 707107, 0, -707107, -1000000, -707107>>
ToGainFails(o, a) ==
  \/ o.meta.type = "gain"
  \/ Len(o.meta.spws) > 1
  \/ a.sign = 0
  \/ a.badwidth
  \/ \E k \in 1..Len(a.freqs) : a.freqs[k] < Freqs(o)[1].lo \/ a.freqs[k] > Freqs(o)[1].hi
ToGainClauses(pre, a, out, post) ==
  IF ToGainFails(pre, a) THEN Clause(out = "error", "bad-conversion-accepted") \cup Clause(out # "error" \/ post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"conversion-refused"}
  ELSE LET nf == Len(a.freqs)
           nt == NKT(pre)
           nj == NKJ(pre)
           want(i, f, t, k) == LET c == KCell(pre, i, 1, t, k)
                                   ph == ((a.sign * ((a.freqs[f] \div 100000) % 8) * (c[1] % 8)) % 8) + 1
                               IN <<Cos8[ph], Sin8[ph], c[3], c[4]>>
       IN KWFClauses(post)
       \cup Clause(post.axes.freq = [f \in 1..nf |-> [f |-> a.freqs[f], w |-> a.widths[f], spw |-> Freqs(pre)[1].spw, fj |-> Freqs(pre)[1].fj, lo |-> 0, hi |-> 0]], "freq-labels")
       \cup Clause(post.meta.type = "gain" /\ ~post.meta.wide, "cal-type")
       \cup Clause(/\ Len(post.cells) = NKA(pre) * nf * nt * nj
                   /\ \A i \in 1..NKA(pre) : \A f \in 1..nf : \A t \in 1..nt : \A k \in 1..nj :
                        LET g == post.cells[(((i - 1) * nf + (f - 1)) * nt + (t - 1)) * nj + k]
                            w == want(i, f, t, k)
                        IN Near(g[1], w[1], 3) /\ Near(g[2], w[2], 3) /\ g[3] = w[3] /\ g[4] = w[4], "cells")
       \cup Clause(IF pre.tq = <<>> THEN post.tq = <<>>
                   ELSE post.tq = [q \in 1..(nf * nt * nj) |-> pre.tq[((q - 1) % (nt * nj)) + 1]], "total-quality")
       \cup Clause(post.axes.ant = pre.axes.ant /\ post.axes.time = pre.axes.time /\ post.axes.jones = pre.axes.jones, "other-labels")
       \cup Clause(SameMetaExcept(pre, post, KDerived \cup {"type", "wide"}) /\ post.tel = pre.tel /\ post.cat = pre.cat, "scalar-metadata")
=============================================================================
