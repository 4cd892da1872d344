-------------------------------- MODULE UVD --------------------------------
(***************************************************************************)
(* The abstract UVData object and the meaning of its structural            *)
(* operations.  State (see lib/vf/uvd.py:proj): a cube over                *)
(*   blt  [t, lst, a1, a2, bl, it, uvw, pcid, pc, scan, app]               *)
(*   freq [f, w, spw, fp, eq]                                              *)
(*   pol  [p]                                                              *)
(* with cells <<re, im, flag, nsample>>, plus meta (counts and scalar      *)
(* attributes), tel (antenna table) and cat (phase centers).               *)
(***************************************************************************)
EXTENDS Cube

NBlt(o) == Len(o.axes.blt)
NFreq(o) == Len(o.axes.freq)
NPol(o) == Len(o.axes.pol)
Blts(o) == o.axes.blt
Freqs(o) == o.axes.freq
Pols(o) == o.axes.pol
AntsInData(o) == {Blts(o)[i].a1 : i \in 1..NBlt(o)} \cup {Blts(o)[i].a2 : i \in 1..NBlt(o)}
DataCells(o) == o.cells

BaselineNumber(o, b) == 65536 + 8192 * b.a1 + b.a2

\* truth of the "rectangular" claim: the blt axis reshapes to a time x baseline grid
TimesFastGrid(o) ==
  LET nt == o.meta.Ntimes
      nb == o.meta.Nbls
      B == Blts(o)
  IN /\ nt * nb = NBlt(o)
     /\ \A i \in 1..NBlt(o) :
          /\ B[i].bl = B[((i - 1) \div nt) * nt + 1].bl
          /\ B[i].t = B[((i - 1) % nt) + 1].t
BlsFastGrid(o) ==
  LET nt == o.meta.Ntimes
      nb == o.meta.Nbls
      B == Blts(o)
  IN /\ nt * nb = NBlt(o)
     /\ \A i \in 1..NBlt(o) :
          /\ B[i].t = B[((i - 1) \div nb) * nb + 1].t
          /\ B[i].bl = B[((i - 1) % nb) + 1].bl

\* the recorded blt order, if any, is the actual order
Key(b, name) == CASE name = "time" -> b.t [] name = "baseline" -> b.bl
                  [] name = "ant1" -> b.a1 [] name = "ant2" -> b.a2
LexLe(x, y, names) ==
  \/ Len(names) = 0
  \/ Key(x, names[1]) < Key(y, names[1])
  \/ /\ Key(x, names[1]) = Key(y, names[1])
     /\ \/ Len(names) = 1
        \/ Key(x, names[2]) <= Key(y, names[2])
OrderKnown(names) == \A k \in 1..Len(names) : names[k] \in {"time", "baseline", "ant1", "ant2"}
\* (after reorder_blts(autos_first=True) it holds for the autos and for the crosses)
OrderTrue(o) ==
  OrderKnown(o.meta.order) =>
    \/ \A i \in 1..(NBlt(o) - 1) : LexLe(Blts(o)[i], Blts(o)[i + 1], o.meta.order)
    \/ LET na == Cardinality({i \in 1..NBlt(o) : Blts(o)[i].a1 = Blts(o)[i].a2})
       IN /\ \A i \in 1..na : Blts(o)[i].a1 = Blts(o)[i].a2
          /\ \A i \in 1..(NBlt(o) - 1) : i = na \/ LexLe(Blts(o)[i], Blts(o)[i + 1], o.meta.order)

WellFormedClauses(o) ==
     Clause(\A k \in 1..Len(o.lens) : o.lens[k] = NBlt(o), "wf-blt-lengths")
\cup Clause(\A k \in 1..Len(o.shape) : o.shape[k] = <<NBlt(o), NFreq(o), NPol(o)>>, "wf-data-shape")
\cup Clause(o.cells = <<>> \/ Len(o.cells) = NBlt(o) * NFreq(o) * NPol(o), "wf-cells")
\cup Clause(o.meta.Nblts = NBlt(o) /\ o.meta.Nfreqs = NFreq(o) /\ o.meta.Npols = NPol(o), "wf-axis-counts")
\cup Clause(o.meta.Nbls = Cardinality({Blts(o)[i].bl : i \in 1..NBlt(o)}), "wf-Nbls")
\cup Clause(o.meta.Ntimes = Cardinality({Blts(o)[i].t : i \in 1..NBlt(o)}), "wf-Ntimes")
\cup Clause(o.meta.Nants = Cardinality(AntsInData(o)), "wf-Nants_data")
\cup Clause(o.meta.Nspws = Len(o.meta.spws) /\ DistinctSeq(o.meta.spws), "wf-Nspws")
\cup Clause({Freqs(o)[j].spw : j \in 1..NFreq(o)} = Range1(o.meta.spws), "wf-spws-used")
\cup Clause(\A i \in 1..NBlt(o) : Blts(o)[i].bl = BaselineNumber(o, Blts(o)[i]), "wf-baseline-number")
\cup Clause(\A i \in 1..NBlt(o) : Blts(o)[i].pc # "?missing", "wf-phase-center-in-catalog")
\cup Clause(o.tel.nants = Len(o.tel.ants) /\ \A k \in 1..Len(o.tel.lens) : o.tel.lens[k] = o.tel.nants, "wf-telescope-lengths")
\cup Clause(AntsInData(o) \subseteq {o.tel.ants[k].num : k \in 1..Len(o.tel.ants)}, "wf-antennas-known")
\cup Clause(\A j \in 1..NFreq(o) : Freqs(o)[j].eq = <<>> \/ Len(Freqs(o)[j].eq) = o.tel.nants, "wf-eq-coeffs")
\cup Clause(DistinctSeq(Pols(o)), "wf-pols-distinct")
\cup Clause(o.meta.rect = "T" => IF o.meta.tfast = "T" THEN TimesFastGrid(o) ELSE BlsFastGrid(o), "wf-rectangularity")
\cup Clause(OrderTrue(o), "wf-blt-order")

\* everything except the two derived rectangularity attributes
SameMetaExcept(a, b, ignore) ==
  \A f \in (DOMAIN a.meta) \ ignore : a.meta[f] = b.meta[f]
Derived == {"rect", "tfast", "Nblts", "Nbls", "Ntimes", "Nants", "Nfreqs", "Npols", "Nspws", "spws"}

-----------------------------------------------------------------------------
(* select *)
PolConj(p) == CASE p = -7 -> -8 [] p = -8 -> -7 [] p = -3 -> -4 [] p = -4 -> -3 [] OTHER -> p

HasPair(o, a, b) == \E i \in 1..NBlt(o) : Blts(o)[i].a1 = a /\ Blts(o)[i].a2 = b
PairBlts(o, a, b) ==
  IF HasPair(o, a, b) THEN {i \in 1..NBlt(o) : Blts(o)[i].a1 = a /\ Blts(o)[i].a2 = b}
                      ELSE {i \in 1..NBlt(o) : Blts(o)[i].a1 = b /\ Blts(o)[i].a2 = a}
TTol == 10
TimePresent(o, t) == \E i \in 1..NBlt(o) : Near(Blts(o)[i].t, t, TTol)
LstPresent(o, l) == \E i \in 1..NBlt(o) : Near(Blts(o)[i].lst, l, 3)
InLstRange(l, r) == IF r[1] <= r[2] THEN l >= r[1] /\ l <= r[2] ELSE l >= r[1] \/ l <= r[2]
AntNumOf(o, nm) == CHOOSE n \in {o.tel.ants[k].num : k \in 1..Len(o.tel.ants)} :
                     \E k \in 1..Len(o.tel.ants) : o.tel.ants[k].name = nm /\ o.tel.ants[k].num = n
TelNames(o) == {o.tel.ants[k].name : k \in 1..Len(o.tel.ants)}

BltCriteria == {"ants", "antnames", "bls", "blpols", "astr", "times", "trange", "lsts", "lrange", "inds", "pcids", "names"}
SelBlts(o, a) ==
  {i \in 1..NBlt(o) :
    LET b == Blts(o)[i] IN
    /\ Has(a, "inds") => \E k \in 1..Len(a.inds) : a.inds[k] = i - 1
    /\ Has(a, "ants") => b.a1 \in Range1(a.ants) /\ b.a2 \in Range1(a.ants)
    /\ Has(a, "antnames") => LET S == {AntNumOf(o, nm) : nm \in Range1(a.antnames)} IN b.a1 \in S /\ b.a2 \in S
    /\ Has(a, "bls") => \E k \in 1..Len(a.bls) : i \in PairBlts(o, a.bls[k][1], a.bls[k][2])
    /\ Has(a, "blpols") => \E k \in 1..Len(a.blpols) : i \in PairBlts(o, a.blpols[k][1], a.blpols[k][2])
    /\ Has(a, "astr") => IF a.astr = "auto" THEN b.a1 = b.a2 ELSE IF a.astr = "cross" THEN b.a1 # b.a2 ELSE TRUE
    /\ Has(a, "times") => \E k \in 1..Len(a.times) : Near(b.t, a.times[k], TTol)
    /\ Has(a, "trange") => b.t >= a.trange[1] /\ b.t <= a.trange[2]
    /\ Has(a, "lsts") => \E k \in 1..Len(a.lsts) : Near(b.lst, a.lsts[k], 3)
    /\ Has(a, "lrange") => InLstRange(b.lst, a.lrange)
    /\ Has(a, "pcids") => b.pcid \in Range1(a.pcids)
    /\ Has(a, "names") => b.pc \in Range1(a.names)}
SelFreqs(o, a) ==
  {j \in 1..NFreq(o) :
    ~(Has(a, "freqs") \/ Has(a, "chans"))
    \/ (Has(a, "freqs") /\ Freqs(o)[j].f \in Range1(a.freqs))
    \/ (Has(a, "chans") /\ (j - 1) \in Range1(a.chans))}
PolsAsked(o, a) ==
  IF Has(a, "blpols")
  THEN {IF HasPair(o, x[1], x[2]) THEN x[3] ELSE PolConj(x[3]) : x \in Range1(a.blpols)}
  ELSE Range1(a.pols)
SelPols(o, a) ==
  {k \in 1..NPol(o) : (Has(a, "pols") \/ Has(a, "blpols")) => Pols(o)[k].p \in PolsAsked(o, a)}

BadInds(o, a) == Has(a, "inds") /\ \E k \in 1..Len(a.inds) : a.inds[k] < 0 \/ a.inds[k] >= NBlt(o)
\* an out of range blt index may go unnoticed when another criterion removes it anyway
MayFail(o, a) == BadInds(o, a) /\ \E f \in BltCriteria \ {"inds"} : Has(a, f)
TimeArgs(a) == {f \in {"times", "trange", "lsts", "lrange"} : Has(a, f)}
SelectFails(o, a) ==
  \/ Has(a, "ants") /\ ~(Range1(a.ants) \subseteq AntsInData(o))
  \/ Has(a, "antnames") /\ ~(Range1(a.antnames) \subseteq TelNames(o))
  \/ Has(a, "antnames") /\ Range1(a.antnames) \subseteq TelNames(o) /\ \E nm \in Range1(a.antnames) : AntNumOf(o, nm) \notin AntsInData(o)
  \/ Has(a, "ants") /\ Has(a, "antnames")
  \/ Has(a, "bls") /\ \E x \in Range1(a.bls) : ~HasPair(o, x[1], x[2]) /\ ~HasPair(o, x[2], x[1])
  \/ Has(a, "blpols") /\ \E x \in Range1(a.blpols) : ~HasPair(o, x[1], x[2]) /\ ~HasPair(o, x[2], x[1])
  \/ Has(a, "blpols") /\ Has(a, "pols")
  \/ Cardinality(TimeArgs(a)) > 1
  \/ Has(a, "times") /\ \E k \in 1..Len(a.times) : ~TimePresent(o, a.times[k])
  \/ Has(a, "lsts") /\ \E k \in 1..Len(a.lsts) : ~LstPresent(o, a.lsts[k])
  \/ Has(a, "trange") /\ ~\E i \in 1..NBlt(o) : Blts(o)[i].t >= a.trange[1] /\ Blts(o)[i].t <= a.trange[2]
  \/ Has(a, "lrange") /\ ~\E i \in 1..NBlt(o) : InLstRange(Blts(o)[i].lst, a.lrange)
  \/ BadInds(o, a)
  \/ Has(a, "pcids") /\ Has(a, "names")
  \/ Has(a, "chans") /\ \E k \in 1..Len(a.chans) : a.chans[k] >= NFreq(o)
  \/ Has(a, "freqs") /\ \E k \in 1..Len(a.freqs) : ~\E j \in 1..NFreq(o) : Freqs(o)[j].f = a.freqs[k]
  \/ (Has(a, "pols") \/ Has(a, "blpols")) /\ \E p \in PolsAsked(o, a) : ~\E k \in 1..NPol(o) : Pols(o)[k].p = p
  \/ SelBlts(o, a) = {}

RestrictTel(o, keepset) ==
  LET idx == IdxSeq({k \in 1..Len(o.tel.ants) : o.tel.ants[k].num \in keepset})
      f(j) == IF Freqs(o)[j].eq = <<>> THEN Freqs(o)[j]
              ELSE [Freqs(o)[j] EXCEPT !.eq = PickIdx(Freqs(o)[j].eq, idx)]
  IN [o EXCEPT !.tel.ants = PickIdx(o.tel.ants, idx),
               !.axes.freq = [j \in 1..NFreq(o) |-> f(j)]]

SelectPost(o, a) ==
  LET bi == IdxSeq(SelBlts(o, a))
      fi == IdxSeq(SelFreqs(o, a))
      pi == IdxSeq(SelPols(o, a))
      s1 == Take(o, "blt", bi)
      s2 == Take(s1, "freq", fi)
      s3 == Take(s2, "pol", pi)
      usespw == {s2.axes.freq[j].spw : j \in 1..Len(fi)}
      spwix == IdxSeq({k \in 1..Len(o.meta.spws) : o.meta.spws[k] \in usespw})
      s4 == [s3 EXCEPT !.meta.spws = PickIdx(o.meta.spws, spwix)]
      drops == ~a.keep /\ \E f \in BltCriteria : Has(a, f) /\ ~(f = "astr" /\ a.astr = "all")
  IN IF drops THEN RestrictTel(s4, AntsInData(s4)) ELSE s4

\* clauses broken when `post` is compared with the state `want` the specification computes
Diff(want, post, ignoremeta) ==
     Clause(post.axes.blt = want.axes.blt, "blt-labels")
\cup Clause(post.axes.freq = want.axes.freq, "freq-labels")
\cup Clause(post.axes.pol = want.axes.pol, "pol-labels")
\cup Clause(post.cells = want.cells, "cells")
\cup Clause(post.meta.spws = want.meta.spws, "spw-array")
\cup Clause(SameMetaExcept(want, post, Derived \cup ignoremeta), "scalar-metadata")
\cup Clause(post.tel.ants = want.tel.ants /\ post.tel.name = want.tel.name /\ post.tel.loc = want.tel.loc
            /\ post.tel.xo = want.tel.xo /\ post.tel.inst = want.tel.inst, "telescope")
\cup Clause(post.cat = want.cat, "catalog")

SelectClauses(pre, a, out, post) ==
  IF SelectFails(pre, a)
  THEN Clause(out = "error" \/ MayFail(pre, a), "bad-selection-accepted") \cup Clause(out # "error" \/ post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"valid-selection-refused"}
  ELSE WellFormedClauses(post) \cup Diff(SelectPost(pre, a), post, {})

-----------------------------------------------------------------------------
(* conjugation of baselines *)
PolIx(o, p) == CHOOSE k \in 1..NPol(o) : Pols(o)[k].p = p
HasConjPols(o) == \A k \in 1..NPol(o) : \E m \in 1..NPol(o) : Pols(o)[m].p = PolConj(Pols(o)[k].p)

ConjBlt(o, b) == [b EXCEPT !.a1 = b.a2, !.a2 = b.a1, !.bl = 65536 + 8192 * b.a2 + b.a1,
                           !.uvw = [k \in 1..Len(b.uvw) |-> 0 - b.uvw[k]]]
ConjCell(c) == <<c[1], 0 - c[2], c[3], c[4]>>
\* o with the blts in S (1-based) described from the other end
ConjPost(o, S) ==
  LET nf == NFreq(o)
      np == NPol(o)
      cp == [k \in 1..np |-> PolIx(o, PolConj(Pols(o)[k].p))]
  IN [o EXCEPT
       !.axes.blt = [i \in 1..NBlt(o) |-> IF i \in S THEN ConjBlt(o, Blts(o)[i]) ELSE Blts(o)[i]],
       !.cells = IF o.cells = <<>> \/ S = {} THEN o.cells
                 ELSE [q \in 1..Len(o.cells) |->
                   LET i == ((q - 1) \div (nf * np)) + 1
                       k == ((q - 1) % np) + 1
                   IN IF i \in S THEN ConjCell(o.cells[q - k + cp[k]]) ELSE o.cells[q]]]

\* e is the vector a conjugation convention looks at: ENU baseline or uvw (mm)
BlVec(o, args, i) ==
  IF args.enu
  THEN LET p1 == args.antenu[ToString(Blts(o)[i].a1)]
           p2 == args.antenu[ToString(Blts(o)[i].a2)]
       IN [k \in 1..3 |-> p2[k] - p1[k]]
  ELSE Blts(o)[i].uvw
ConjWanted(o, args, i) ==
  LET b == Blts(o)[i]
      tol == args.tol
      x == BlVec(o, args, i)
      pos(k) == x[k] > tol
      neg(k) == x[k] < 0 - tol
      zero(k) == Abs(x[k]) <= tol
  IN CASE args.conv = "ant1<ant2" -> b.a1 > b.a2
       [] args.conv = "ant2<ant1" -> b.a2 > b.a1
       [] args.conv = "u<0" -> pos(1) \/ (zero(1) /\ pos(2)) \/ (zero(1) /\ zero(2) /\ pos(3))
       [] args.conv = "u>0" -> neg(1) \/ (zero(1) /\ neg(2)) \/ (zero(1) /\ zero(2) /\ neg(3))
       [] args.conv = "v<0" -> pos(2) \/ (zero(2) /\ pos(1)) \/ (zero(1) /\ zero(2) /\ pos(3))
       [] args.conv = "v>0" -> neg(2) \/ (zero(2) /\ neg(1)) \/ (zero(1) /\ zero(2) /\ neg(3))
       [] args.conv = "index" -> (i - 1) \in Range1(args.inds)
       [] OTHER -> FALSE
ConjSet(o, args) == {i \in 1..NBlt(o) : ConjWanted(o, args, i)}

ConjClauses(pre, args, out, post) ==
  LET S == ConjSet(pre, args) IN
  IF S # {} /\ ~HasConjPols(pre)
  THEN Clause(out = "error", "conjugated-without-conjugate-pols") \cup Clause(out # "error" \/ post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"conjugation-refused"}
  ELSE WellFormedClauses(post) \cup Diff(ConjPost(pre, S), post, {"order"})

-----------------------------------------------------------------------------
(* reordering: permutations that keep every cell with its labels *)
IsAuto(b) == b.a1 = b.a2
SortedBlts(o, args) ==
  LET B == Blts(o)
      n == NBlt(o)
      nauto == Cardinality({i \in 1..n : IsAuto(B[i])})
      ord == args.keys
      le(x, y) == IF ord[1] = "bda"
                  THEN x.it < y.it \/ (x.it = y.it /\ x.bl < y.bl) \/ (x.it = y.it /\ x.bl = y.bl /\ x.t <= y.t)
                  ELSE LexLe(x, y, ord)
  IN IF args.autos
     THEN /\ \A i \in 1..nauto : IsAuto(B[i])
          /\ \A i \in 1..(nauto - 1) : le(B[i], B[i + 1])
          /\ \A i \in (nauto + 1)..(n - 1) : le(B[i], B[i + 1])
     ELSE \A i \in 1..(n - 1) : le(B[i], B[i + 1])

ReorderBltsClauses(pre, args, out, post) ==
  LET S == IF Has(args, "conj") THEN ConjSet(pre, args.conj) ELSE {}
      mid == ConjPost(pre, S)
  IN IF S # {} /\ ~HasConjPols(pre)
     THEN Clause(out = "error", "conjugated-without-conjugate-pols")
     ELSE IF out = "error" THEN {"reorder-refused"}
     ELSE WellFormedClauses(post) \cup
          (IF ~SameBag(Blts(mid), Blts(post)) THEN {"not-a-permutation"}
           ELSE Diff(Take(mid, "blt", IF Has(args, "index") THEN [k \in 1..Len(args.index) |-> args.index[k] + 1]
                                      ELSE PermOf(Blts(mid), Blts(post))), post, {"order"})
                \cup Clause(Has(args, "index") \/ SortedBlts(post, args), "requested-order"))

SpwMembers(o, s) == IdxSeq({j \in 1..NFreq(o) : Freqs(o)[j].spw = s})
Median2(o, s) ==   \* twice the median frequency offset (kHz keeps it in range)
  LET idx == SpwMembers(o, s)
      fs == SortSeq([k \in 1..Len(idx) |-> Freqs(o)[idx[k]].f \div 1000], LAMBDA x, y : x < y)
      n == Len(fs)
  IN IF n % 2 = 1 THEN 2 * fs[(n + 1) \div 2] ELSE fs[n \div 2] + fs[n \div 2 + 1]
SpwOrderSeq(o, so) ==
  CASE so = "number" -> SortSeq(o.meta.spws, LAMBDA x, y : x < y)
    [] so = "-number" -> SortSeq(o.meta.spws, LAMBDA x, y : x > y)
    [] so = "freq" -> SortSeq(o.meta.spws, LAMBDA x, y : Median2(o, x) < Median2(o, y))
    [] so = "-freq" -> SortSeq(o.meta.spws, LAMBDA x, y : Median2(o, x) > Median2(o, y))
ReorderFreqIdx(o, args) ==
  IF Has(args, "chanindex") THEN [k \in 1..Len(args.chanindex) |-> args.chanindex[k] + 1]
  ELSE
   LET n == NFreq(o)
       spwseq == IF Has(args, "spwindex") THEN [k \in 1..Len(args.spwindex) |-> o.meta.spws[args.spwindex[k] + 1]]
                 ELSE IF Has(args, "spworder") THEN SpwOrderSeq(o, args.spworder) ELSE <<>>
       base == IF spwseq = <<>> \/ Has(args, "select") THEN [k \in 1..n |-> k]
               ELSE FoldLeft(LAMBDA acc, sp : acc \o SpwMembers(o, sp), <<>>, spwseq)
       spwAt(k) == Freqs(o)[base[k]].spw
       dosort(sp) == Has(args, "chan") /\ (Has(args, "select") => sp \in Range1(args.select))
       sorted(sp) == SortSeq(SpwMembers(o, sp), LAMBDA x, y : IF args.chan = "freq" THEN Freqs(o)[x].f < Freqs(o)[y].f
                                                              ELSE Freqs(o)[x].f > Freqs(o)[y].f)
       rank(k) == Cardinality({m \in 1..k : spwAt(m) = spwAt(k)})
   IN [k \in 1..n |-> IF dosort(spwAt(k)) THEN sorted(spwAt(k))[rank(k)] ELSE base[k]]
ReorderFreqsClauses(pre, args, out, post) ==
  IF out = "error" THEN {"reorder-refused"}
  ELSE WellFormedClauses(post)
       \cup Diff([Take(pre, "freq", ReorderFreqIdx(pre, args)) EXCEPT !.meta.spws = post.meta.spws], post, {})

PolRankAIPS(p) == Abs(p)
CasaSeq == <<1, 2, 3, 4, -1, -3, -4, -2, -5, -7, -8, -6>>
PolRank(kind, p) == IF kind = "AIPS" THEN Abs(p) ELSE CHOOSE k \in 1..12 : CasaSeq[k] = p
ReorderPolsClauses(pre, args, out, post) ==
  IF out = "error" THEN {"reorder-refused"}
  ELSE WellFormedClauses(post) \cup
       (IF ~SameBag(Pols(pre), Pols(post)) THEN {"not-a-permutation"}
        ELSE Diff(Take(pre, "pol", IF Has(args, "index") THEN [k \in 1..Len(args.index) |-> args.index[k] + 1]
                                   ELSE PermOf(Pols(pre), Pols(post))), post, {})
             \cup Clause(Has(args, "index") \/ \A k \in 1..(NPol(post) - 1) :
                          PolRank(args.kind, Pols(post)[k].p) < PolRank(args.kind, Pols(post)[k + 1].p), "requested-order"))

-----------------------------------------------------------------------------
(* combination *)
NormBlt(b) == [b EXCEPT !.pcid = 0]     \* combining may renumber phase centers
NormBlts(o) == [i \in 1..NBlt(o) |-> NormBlt(Blts(o)[i])]
BKey(b) == <<b.t, b.a1, b.a2>>
FKey(f) == <<f.f, f.spw>>
BKeys(o) == [i \in 1..NBlt(o) |-> BKey(Blts(o)[i])]
FKeys(o) == [j \in 1..NFreq(o) |-> FKey(Freqs(o)[j])]
PKeys(o) == [k \in 1..NPol(o) |-> Pols(o)[k].p]
\* position of key in a sequence of keys, 0 if absent
PosIn(keys, x) == IF \E i \in 1..Len(keys) : keys[i] = x THEN CHOOSE i \in 1..Len(keys) : keys[i] = x ELSE 0

PadCell == <<0, 0, 1, 0>>
Cell3(o, i, j, k) == o.cells[((i - 1) * NFreq(o) + (j - 1)) * NPol(o) + k]
OverlapCells(a, b) ==
  LET fa == FKeys(a)
      pa == PKeys(a)
      ba == BKeys(a)
      bs == {i \in 1..NBlt(a) : PosIn(BKeys(b), ba[i]) # 0}
      fs == {j \in 1..NFreq(a) : PosIn(FKeys(b), fa[j]) # 0}
      ps == {k \in 1..NPol(a) : PosIn(PKeys(b), pa[k]) # 0}
  IN bs \X fs \X ps
\* metadata that must agree where the objects share a label
SharedBltsAgree(a, b) ==
  \A i \in 1..NBlt(a) : LET m == PosIn(BKeys(b), BKeys(a)[i]) IN
     m # 0 => [Blts(a)[i] EXCEPT !.scan = 0] = [Blts(b)[m] EXCEPT !.scan = 0]
SharedFreqsAgree(a, b) ==
  \A j \in 1..NFreq(a) : LET m == PosIn(FKeys(b), FKeys(a)[j]) IN m # 0 => Freqs(a)[j].w = Freqs(b)[m].w
Compatible(a, b) ==
  /\ a.meta.units = b.meta.units
  /\ a.tel = b.tel
  /\ SharedBltsAgree(a, b)
  /\ SharedFreqsAgree(a, b)
  /\ (\E i \in 1..NBlt(a) : PosIn(BKeys(b), BKeys(a)[i]) # 0) => a.cat = b.cat
  /\ a.meta.flexpol = b.meta.flexpol
AddFails(a, b) ==
  \/ ~Compatible(a, b)
  \/ /\ a.cells # <<>>
     /\ \E x \in OverlapCells(a, b) : LET c == Cell3(a, x[1], x[2], x[3]) IN ~(c[1] = 0 /\ c[2] = 0 /\ c[3] = 1)

UnionClauses(a, b, post) ==
  LET ba == BKeys(a)
      bb == BKeys(b)
      fa == FKeys(a)
      fb == FKeys(b)
      pa == PKeys(a)
      pb == PKeys(b)
      bp == BKeys(post)
      fp == FKeys(post)
      pp == PKeys(post)
      \* positions of each label of the result in a and in b (0: absent)
      ia == [i \in 1..NBlt(post) |-> PosIn(ba, bp[i])]
      ib == [i \in 1..NBlt(post) |-> PosIn(bb, bp[i])]
      ja == [j \in 1..NFreq(post) |-> PosIn(fa, fp[j])]
      jb == [j \in 1..NFreq(post) |-> PosIn(fb, fp[j])]
      ka == [k \in 1..NPol(post) |-> PosIn(pa, pp[k])]
      kb == [k \in 1..NPol(post) |-> PosIn(pb, pp[k])]
      want(i, j, k) == IF ib[i] # 0 /\ jb[j] # 0 /\ kb[k] # 0 THEN Cell3(b, ib[i], jb[j], kb[k])
                       ELSE IF ia[i] # 0 /\ ja[j] # 0 /\ ka[k] # 0 THEN Cell3(a, ia[i], ja[j], ka[k])
                       ELSE PadCell
      axesok == /\ Range1(bp) = Range1(ba) \cup Range1(bb) /\ DistinctSeq(bp)
                /\ Range1(fp) = Range1(fa) \cup Range1(fb) /\ DistinctSeq(fp)
                /\ Range1(pp) = Range1(pa) \cup Range1(pb) /\ DistinctSeq(pp)
  IN IF ~axesok THEN {"union-of-axes"}
     ELSE Clause(\A i \in 1..NBlt(post) : NormBlt(Blts(post)[i]) = IF ia[i] # 0 THEN NormBlt(Blts(a)[ia[i]]) ELSE NormBlt(Blts(b)[ib[i]]), "blt-labels")
     \cup Clause(\A j \in 1..NFreq(post) : Freqs(post)[j] = IF ja[j] # 0 THEN Freqs(a)[ja[j]] ELSE Freqs(b)[jb[j]], "freq-labels")
     \cup Clause(IF a.cells = <<>> THEN post.cells = <<>>
                 ELSE /\ Len(post.cells) = NBlt(post) * NFreq(post) * NPol(post)
                      /\ \A i \in 1..NBlt(post) : \A j \in 1..NFreq(post) : \A k \in 1..NPol(post) :
                           Cell3(post, i, j, k) = want(i, j, k), "cells")
     \cup Clause(post.tel = a.tel, "telescope")
     \cup Clause(SameMetaExcept(a, post, Derived \cup {"order", "xkw"}), "scalar-metadata")

AddClauses(a, b, out, post) ==
  IF AddFails(a, b) THEN Clause(out = "error", "invalid-combination-accepted")
  ELSE IF out = "error" THEN {"valid-combination-refused"}
  ELSE WellFormedClauses(post) \cup UnionClauses(a, b, post)

\* b seen through possibly renumbered phase centers
SameUpToIds(a, b) == /\ NormBlts(a) = NormBlts(b)
                     /\ [a EXCEPT !.axes.blt = <<>>, !.cat = <<>>] = [b EXCEPT !.axes.blt = <<>>, !.cat = <<>>]

NormFor(o) == [o EXCEPT !.axes.blt = NormBlts(o)]
\* the labels fast_concat compares
RowKey(o) == [i \in 1..NBlt(o) |-> LET b == Blts(o)[i] IN <<b.a1, b.a2, b.it, b.uvw, b.lst, b.pcid>>]
FreqKey(o, ax) == [j \in 1..NFreq(o) |-> LET f == Freqs(o)[j] IN <<f.f, IF ax = "blt" THEN 0 ELSE f.w, f.spw>>]
ConcatFails(parts, ax) ==
  \E k \in 2..Len(parts) :
    LET a == NormFor(parts[1])
        b == NormFor(parts[k])
    IN \/ a.meta.units # b.meta.units
       \/ a.tel # b.tel
       \/ ax # "pol" /\ Pols(a) # Pols(b)
       \/ ax # "freq" /\ FreqKey(a, ax) # FreqKey(b, ax)
       \/ ax # "blt" /\ RowKey(a) # RowKey(b)
ConcatClauses(parts, ax, out, post) ==
  IF ConcatFails(parts, ax) THEN Clause(out = "error", "invalid-combination-accepted") ELSE
  LET want == FoldLeft(LAMBDA acc, p : Concat(acc, NormFor(p), ax), NormFor(parts[1]), SubSeq(parts, 2, Len(parts)))
      got == NormFor(post)
  IN IF out = "error" THEN {"valid-concat-refused"}
     ELSE WellFormedClauses(post)
       \cup Clause(got.axes.blt = want.axes.blt, "blt-labels")
       \cup Clause(got.axes.freq = want.axes.freq, "freq-labels")
       \cup Clause(got.axes.pol = want.axes.pol, "pol-labels")
       \cup Clause(got.cells = want.cells, "cells")
       \cup Clause(got.tel = want.tel, "telescope")
       \cup Clause(SameMetaExcept(parts[1], post, Derived \cup {"order", "xkw"}), "scalar-metadata")
=============================================================================
