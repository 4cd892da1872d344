-------------------------------- MODULE BEAM --------------------------------
(***************************************************************************)
(* The abstract UVBeam object (lib/vf/beam.py:projb): a cube over          *)
(*   vec [v]  pol [p] (a feed or a polarization, as text)                  *)
(*   freq [f, bp, rx, loss, mm, s]  and the pixels: ax2, ax1 [x] or pix    *)
(* with cells <<re, im>>, the basis vectors bv as a cube over vec, comp    *)
(* and the pixels, and (phased arrays) the coupling matrix cpl as a cube   *)
(* over element, element, feed, feed and freq.                             *)
(***************************************************************************)
EXTENDS Cube

PixAx(o) == IF o.meta.cs = "healpix" THEN <<"pix">> ELSE <<"ax2", "ax1">>
BN(o, ax) == Len(o.axes[ax])
BFreqs(o) == o.axes.freq
BPols(o) == o.axes.pol
CrossPols == {"-3", "-4", "-7", "-8"}
NumSeq(n) == [k \in 1..n |-> k]
BVCube(o) == [order |-> <<"vec", "comp">> \o PixAx(o), axes |-> o.axes @@ [comp |-> NumSeq(o.meta.Ncomp)], cells |-> o.bv]
CPCube(o) == [order |-> <<"e1", "e2", "fa", "fb", "freq">>,
              axes |-> [e1 |-> NumSeq(o.meta.Nel), e2 |-> NumSeq(o.meta.Nel), fa |-> BPols(o), fb |-> BPols(o), freq |-> BFreqs(o)], cells |-> o.cpl]
BTake(o, ax, idx) ==
  LET t == Take(o, ax, idx) IN
  CASE ax \in {"ax1", "ax2", "pix"} -> [t EXCEPT !.bv = TakeCells(BVCube(o), ax, idx)]
    [] ax = "freq" -> [t EXCEPT !.cpl = TakeCells(CPCube(o), "freq", idx)]
    [] ax = "pol" -> IF o.cpl = <<>> THEN t ELSE [t EXCEPT !.cpl = TakeCells(Take(CPCube(o), "fa", idx), "fb", idx)]
    [] OTHER -> t

BWFClauses(o) ==
     Clause(o.shape = Dims(o), "wf-data-shape")
\cup Clause(Len(o.cells) = NCells(o), "wf-cells")
\cup Clause(o.bv = <<>> \/ o.bvshape = Dims(BVCube(o)), "wf-basis-vectors")
\cup Clause(o.cpl = <<>> \/ o.cplshape = Dims(CPCube(o)), "wf-coupling")
\cup Clause(o.meta.type = "power" \/ o.bv # <<>>, "wf-basis-vectors-present")
\cup Clause(o.meta.Nvec = BN(o, "vec") /\ o.meta.Nfreqs = BN(o, "freq") /\ o.meta.Npol = BN(o, "pol"), "wf-counts")
\cup Clause(IF o.meta.cs = "healpix" THEN o.meta.Npix = BN(o, "pix") ELSE o.meta.N1 = BN(o, "ax1") /\ o.meta.N2 = BN(o, "ax2"), "wf-pixel-counts")
\cup Clause(\A k \in 1..Len(o.flens) : o.flens[k] = BN(o, "freq"), "wf-freq-lengths")
\cup Clause(DistinctSeq(BPols(o)), "wf-labels-distinct")
\cup Clause(o.meta.type = "efield" \/ {BPols(o)[k].p : k \in 1..BN(o, "pol")} \cap CrossPols = {} \/ o.meta.cplx, "wf-cross-pols-complex")

BDer == {"Nvec", "Nfreqs", "Npol", "Npix", "N1", "N2", "cplx"}
BSameMeta(a, b, ign) == \A f \in (DOMAIN a.meta) \ (BDer \cup ign) : a.meta[f] = b.meta[f]
BDiff(want, post, ign) ==
     Clause(post.axes.vec = want.axes.vec, "vector-axis")
\cup Clause(post.axes.pol = want.axes.pol, "pol-labels")
\cup Clause(post.axes.freq = want.axes.freq, "freq-labels")
\cup Clause(\A k \in 1..Len(PixAx(want)) : post.axes[PixAx(want)[k]] = want.axes[PixAx(want)[k]], "pixel-labels")
\cup Clause(post.cells = want.cells, "cells")
\cup Clause(post.bv = want.bv, "basis-vectors")
\cup Clause(post.cpl = want.cpl, "coupling")
\cup Clause(BSameMeta(want, post, ign), "scalar-metadata")

-----------------------------------------------------------------------------
(* select *)
BAlias(o) == [x \in {"e", "n"} |-> CASE o.meta.xo = "east" -> (IF x = "e" THEN "x" ELSE "y")
                                     [] o.meta.xo = "north" -> (IF x = "e" THEN "y" ELSE "x") [] OTHER -> "none"]
PolNames(o) == {BPols(o)[k].p : k \in 1..BN(o, "pol")}
BFeed(o, x) == IF x \in PolNames(o) THEN x ELSE IF x \in {"e", "n"} THEN BAlias(o)[x] ELSE "none"
BSel(o, a, ax) ==
  CASE ax = "ax1" -> {k \in 1..BN(o, ax) : Has(a, "ax1") => (k - 1) \in Range1(a.ax1)}
    [] ax = "ax2" -> {k \in 1..BN(o, ax) : Has(a, "ax2") => (k - 1) \in Range1(a.ax2)}
    [] ax = "pix" -> {k \in 1..BN(o, ax) : Has(a, "pix") => o.axes.pix[k].x \in Range1(a.pix)}
    [] ax = "freq" -> {k \in 1..BN(o, ax) : (Has(a, "freqs") \/ Has(a, "chans")) =>
                          \/ Has(a, "freqs") /\ BFreqs(o)[k].f \in Range1(a.freqs)
                          \/ Has(a, "chans") /\ (k - 1) \in Range1(a.chans)}
    [] ax = "pol" -> {k \in 1..BN(o, ax) : /\ Has(a, "feeds") => BPols(o)[k].p \in {BFeed(o, x) : x \in Range1(a.feeds)}
                                           /\ Has(a, "pols") => BPols(o)[k].p \in Range1(a.pols)}
BSelectFails(o, a) ==
  \/ (Has(a, "ax1") \/ Has(a, "ax2")) /\ o.meta.cs = "healpix"
  \/ Has(a, "pix") /\ o.meta.cs # "healpix"
  \/ Has(a, "pix") /\ o.meta.cs = "healpix" /\ ~(Range1(a.pix) \subseteq {o.axes.pix[k].x : k \in 1..BN(o, "pix")})
  \/ Has(a, "ax1") /\ o.meta.cs # "healpix" /\ \E x \in Range1(a.ax1) : x < 0 \/ x >= BN(o, "ax1")
  \/ Has(a, "ax2") /\ o.meta.cs # "healpix" /\ \E x \in Range1(a.ax2) : x < 0 \/ x >= BN(o, "ax2")
  \/ Has(a, "feeds") /\ (o.meta.type = "power" \/ \E x \in Range1(a.feeds) : BFeed(o, x) \notin PolNames(o))
  \/ Has(a, "pols") /\ (o.meta.type = "efield" \/ ~(Range1(a.pols) \subseteq PolNames(o)))
  \/ Has(a, "freqs") /\ ~(Range1(a.freqs) \subseteq {BFreqs(o)[k].f : k \in 1..BN(o, "freq")})
  \/ Has(a, "chans") /\ \E x \in Range1(a.chans) : x >= BN(o, "freq")
BSelectPost(o, a) ==
  LET axs == <<"pol", "freq">> \o PixAx(o)
  IN FoldLeft(LAMBDA acc, ax : BTake(acc, ax, IdxSeq(BSel(o, a, ax))), o, axs)
BSelectClauses(pre, a, out, post, same) ==
  IF BSelectFails(pre, a) THEN Clause(out = "error", "bad-selection-accepted") \cup Clause(same \/ out # "error" \/ post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"valid-selection-refused"}
  ELSE BWFClauses(post) \cup BDiff(BSelectPost(pre, a), post, {})

-----------------------------------------------------------------------------
(* combination *)
PosOf(L, x) == IF \E i \in 1..Len(L) : L[i] = x THEN CHOOSE i \in 1..Len(L) : L[i] = x ELSE 0
BKeys(o, ax) == CASE ax = "freq" -> [k \in 1..BN(o, ax) |-> BFreqs(o)[k].f]
                  [] OTHER -> o.axes[ax]
DropOpt(x, rx, ls, mm, sp) == [x EXCEPT !.rx = IF rx THEN x.rx ELSE -1, !.loss = IF ls THEN x.loss ELSE -1, !.mm = IF mm THEN x.mm ELSE -1, !.s = IF sp THEN x.s ELSE <<>>]
BUnionAxes(o) == <<"pol", "freq">> \o PixAx(o)
BAddFails(a, b) ==
  \/ \E f \in {"type", "ant", "norm", "names", "cs", "Nvec", "nside", "ordering", "array"} : a.meta[f] # b.meta[f]
  \/ \A k \in 1..Len(BUnionAxes(a)) : LET ax == BUnionAxes(a)[k] IN Range1(BKeys(a, ax)) \cap Range1(BKeys(b, ax)) # {}
PosIn2(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0
\* position of the multi index m of post (after pos maps pm) in object x, 0 if some label is missing
MapIx(m, axs, order, pm) == [k \in 1..Len(order) |-> LET r == PosIn2(axs, order[k]) IN IF r = 0 THEN m[k] ELSE pm[r][m[k]]]
RECURSIVE UnflatFrom(_, _, _)
UnflatFrom(d, p, k) == IF k = 0 THEN <<>> ELSE Append(UnflatFrom(d, p \div d[k], k - 1), (p % d[k]) + 1)
Unflat(d, p1) == UnflatFrom(d, p1 - 1, Len(d))
\* every cell of cube P is the cell of B at the same labels, else of A, else zero
UnionOK(P, A, B, axs, pa, pb, zero) ==
  /\ Len(P.cells) = NCells(P)
  /\ LET d == Dims(P) IN
     \A q \in 1..Len(P.cells) :
       LET m == Unflat(d, q)
           mb == MapIx(m, axs, P.order, pb)
           ma == MapIx(m, axs, P.order, pa)
       IN P.cells[q] = IF \A k \in 1..Len(mb) : mb[k] # 0 THEN CellAt(B, mb)
                       ELSE IF \A k \in 1..Len(ma) : ma[k] # 0 THEN CellAt(A, ma) ELSE zero
BAddClauses(a, b, out, post) ==
  IF BAddFails(a, b) THEN Clause(out = "error", "invalid-combination-accepted")
  ELSE IF out = "error" THEN {"valid-combination-refused"}
  ELSE LET axs == BUnionAxes(a)
           pos(x) == [k \in 1..Len(axs) |-> [i \in 1..BN(post, axs[k]) |-> PosOf(BKeys(x, axs[k]), BKeys(post, axs[k])[i])]]
           pa == pos(a)
           pb == pos(b)
           axok == \A k \in 1..Len(axs) : /\ Range1(BKeys(post, axs[k])) = Range1(BKeys(a, axs[k])) \cup Range1(BKeys(b, axs[k]))
                                          /\ DistinctSeq(BKeys(post, axs[k]))
           opt(f) == a.opt[f] /\ b.opt[f]
           norm(x) == DropOpt(x, opt("rx"), opt("loss"), opt("mm"), opt("s"))
           cax == <<"fa", "fb", "freq">>
           cpos(p) == <<p[1], p[1], p[2]>>
           bax == PixAx(a)
           bpos(p) == SubSeq(p, 3, Len(p))
       IN BWFClauses(post) \cup
          (IF ~axok THEN {"union-of-axes"} ELSE
             Clause(\A j \in 1..BN(post, "freq") : BFreqs(post)[j] = norm(IF pa[2][j] # 0 THEN BFreqs(a)[pa[2][j]] ELSE BFreqs(b)[pb[2][j]]), "freq-labels")
        \cup Clause(UnionOK(post, a, b, axs, pa, pb, <<0, 0>>), "cells")
        \cup Clause(IF a.bv = <<>> THEN post.bv = <<>> ELSE UnionOK(BVCube(post), BVCube(a), BVCube(b), bax, bpos(pa), bpos(pb), 0), "basis-vectors")
        \cup Clause(IF a.cpl = <<>> THEN post.cpl = <<>> ELSE UnionOK(CPCube(post), CPCube(a), CPCube(b), cax, cpos(pa), cpos(pb), <<0, 0>>), "coupling")
        \cup Clause(BSameMeta(a, post, {"xkw"}), "scalar-metadata"))

-----------------------------------------------------------------------------
(* efield to power (basis vectors are multiples of 1/10: power in 1/100) *)
CMul(x, y) == <<x[1] * y[1] + x[2] * y[2], x[2] * y[1] - x[1] * y[2]>>   \* x * conj(y)
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CScale(x, s) == <<x[1] * s, x[2] * s>>
NPixel(o) == ProdFrom([k \in 1..Len(PixAx(o)) |-> BN(o, PixAx(o)[k])], 1)
ECell(o, v, p, f, x) == o.cells[(((v - 1) * BN(o, "pol") + (p - 1)) * BN(o, "freq") + (f - 1)) * NPixel(o) + x]
BV(o, v, c, x) == o.bv[((v - 1) * o.meta.Ncomp + (c - 1)) * NPixel(o) + x]
PolNum(p, q) ==   \* polarization number (as text) of a pair of feeds
  CASE p = "x" /\ q = "x" -> "-5" [] p = "y" /\ q = "y" -> "-6" [] p = "x" /\ q = "y" -> "-7" [] p = "y" /\ q = "x" -> "-8"
    [] p = "r" /\ q = "r" -> "-1" [] p = "l" /\ q = "l" -> "-2" [] p = "r" /\ q = "l" -> "-3" [] p = "l" /\ q = "r" -> "-4" [] OTHER -> "none"
FeedNum(o, x) == IF x \in {"e", "n"} THEN BAlias(o)[x] ELSE x
ToPowerFails(o, a) == o.meta.type # "efield" \/ o.meta.ant = "phased_array" \/ (BN(o, "vec") # 2 /\ ~a.keep)
ToPowerClauses(pre, a, out, post) ==
  IF ToPowerFails(pre, a) THEN Clause(out = "error", "bad-conversion-accepted") \cup Clause(out # "error" \/ post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"conversion-refused"}
  ELSE LET nf == BN(pre, "pol")
           cross == a.cross /\ nf > 1
           pairs == IF nf = 1 THEN <<<<1, 1>>>> ELSE IF cross THEN <<<<1, 1>>, <<2, 2>>, <<1, 2>>, <<2, 1>>>> ELSE <<<<1, 1>>, <<2, 2>>>>
           lab(k) == PolNum(FeedNum(pre, BPols(pre)[pairs[k][1]].p), FeedNum(pre, BPols(pre)[pairs[k][2]].p))
           want == {<<lab(k), pairs[k]>> : k \in 1..Len(pairs)}
           pr(p) == (CHOOSE w \in want : w[1] = BPols(post)[p].p)[2]
           nq == BN(pre, "freq")
           np == NPixel(pre)
           nv == IF a.keep THEN BN(pre, "vec") ELSE 1
           val(v, p, f, x) ==
             LET i == pr(p)[1]
                 j == pr(p)[2]
             IN IF a.keep THEN CScale(CMul(ECell(pre, v, i, f, x), ECell(pre, v, j, f, x)), 100)
                ELSE LET g(c) == LET s(q) == <<ECell(pre, 1, q, f, x)[1] * BV(pre, 1, c, x) + ECell(pre, 2, q, f, x)[1] * BV(pre, 2, c, x),
                                               ECell(pre, 1, q, f, x)[2] * BV(pre, 1, c, x) + ECell(pre, 2, q, f, x)[2] * BV(pre, 2, c, x)>>
                                 IN CMul(s(i), s(j))
                     IN CAdd(g(1), g(2))
           labsok == {BPols(post)[p].p : p \in 1..BN(post, "pol")} = {w[1] : w \in want} /\ BN(post, "pol") = Len(pairs)
       IN BWFClauses(post) \cup
          (IF ~labsok THEN {"pol-labels"} ELSE
             Clause(post.meta.type = "power" /\ BN(post, "vec") = nv /\ post.axes.freq = pre.axes.freq, "labels")
        \cup Clause(\A k \in 1..Len(PixAx(pre)) : post.axes[PixAx(pre)[k]] = pre.axes[PixAx(pre)[k]], "pixel-labels")
        \cup Clause(post.bv = IF a.keep THEN pre.bv ELSE <<>>, "basis-vectors")
        \cup Clause(post.meta.cplx = cross, "real-without-cross-pols")
        \cup Clause(/\ Len(post.cells) = nv * Len(pairs) * nq * np
                    /\ \A v \in 1..nv : \A p \in 1..Len(pairs) : \A f \in 1..nq : \A x \in 1..np :
                         LET g == ECell(post, v, p, f, x)
                             w == val(v, p, f, x)
                         IN Near(g[1], w[1], 1) /\ Near(g[2], w[2], 1), "power-cells")
        \cup Clause(BSameMeta(pre, post, {"type", "Ncomp"}), "scalar-metadata"))
\* pseudo-Stokes: |tr(s J s J^H)| / 2 with J[vec][feed] (cells in 1/100)
ToStokesFails(o) == o.meta.ant = "phased_array" \/ o.meta.type # "efield" \/ BN(o, "pol") # 2 \/ BN(o, "vec") # 2
ToStokesClauses(pre, out, post) ==
  IF ToStokesFails(pre) THEN Clause(out = "error", "bad-conversion-accepted")
  ELSE IF out = "error" THEN {"conversion-refused"}
  ELSE LET nq == BN(pre, "freq")
           np == NPixel(pre)
           J(v, q, f, x) == ECell(pre, v, q, f, x)
           sq(z) == z[1] * z[1] + z[2] * z[2]
           re2(y, z) == 2 * CMul(y, z)[1]
           val(s, f, x) ==
             LET a == J(1, 1, f, x)  b == J(1, 2, f, x)  c == J(2, 1, f, x)  d == J(2, 2, f, x)
             IN 50 * Abs(CASE s = "1" -> sq(a) + sq(b) + sq(c) + sq(d)
                           [] s = "2" -> sq(a) - sq(b) - sq(c) + sq(d)
                           [] s = "3" -> re2(a, d) + re2(b, c)
                           [] s = "4" -> re2(a, d) - re2(b, c))
       IN BWFClauses(post) \cup
          (IF PolNames(post) # {"1", "2", "3", "4"} \/ BN(post, "pol") # 4 THEN {"pol-labels"} ELSE
             Clause(post.meta.type = "power" /\ BN(post, "vec") = 1 /\ post.axes.freq = pre.axes.freq /\ post.bv = <<>>, "labels")
        \cup Clause(/\ Len(post.cells) = 4 * nq * np
                    /\ \A p \in 1..4 : \A f \in 1..nq : \A x \in 1..np :
                         Near(ECell(post, 1, p, f, x)[1], val(BPols(post)[p].p, f, x), 1) /\ ECell(post, 1, p, f, x)[2] = 0, "stokes-cells")
        \cup Clause(BSameMeta(pre, post, {"type", "Ncomp"}), "scalar-metadata"))

\* peak normalisation: post cells in 1/10000, post bandpass (bp, in 1/400 of the unit of pre.bp / 4)
PeakClauses(pre, out, post) ==
  IF pre.meta.norm = "solid_angle" THEN Clause(out = "error", "bad-conversion-accepted") \cup Clause(out # "error" \/ post = pre, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"conversion-refused"}
  ELSE LET nq == BN(pre, "freq")
           sq(z) == z[1] * z[1] + z[2] * z[2]
           M2(f) == CHOOSE m \in {sq(ECell(pre, v, p, f, x)) : v \in 1..BN(pre, "vec"), p \in 1..BN(pre, "pol"), x \in 1..NPixel(pre)} :
                      \A v \in 1..BN(pre, "vec") : \A p \in 1..BN(pre, "pol") : \A x \in 1..NPixel(pre) : sq(ECell(pre, v, p, f, x)) <= m
           \* r[f] = 100 * |max|, from the bandpass: post.bp = 100 * pre.bp * |max|
           r(f) == BFreqs(post)[f].bp \div BFreqs(pre)[f].bp
           per(f) == \A v \in 1..BN(pre, "vec") : \A p \in 1..BN(pre, "pol") : \A x \in 1..NPixel(pre) :
                        LET g == ECell(post, v, p, f, x)
                            w == ECell(pre, v, p, f, x)
                        IN Near((g[1] * r(f)) \div 100, w[1] * 10000, 2 + 20000 \div 100) /\ Near((g[2] * r(f)) \div 100, w[2] * 10000, 2 + 20000 \div 100)
       IN Clause(post.meta.norm = "peak", "normalization")
     \cup Clause(\A f \in 1..nq : Near(r(f) * r(f), M2(f) * 10000, 2 * r(f) + 2), "bandpass")
     \cup Clause(\A f \in 1..nq : per(f), "cells")
     \cup Clause(post.axes.pol = pre.axes.pol /\ post.bv = pre.bv /\ post.cpl = pre.cpl /\ BSameMeta(pre, post, {"norm"}), "labels")

-----------------------------------------------------------------------------
(* interpolation: every coordinate is <<lower index, upper index, quarter>> *)
W4(c, hi) == IF hi THEN c[3] ELSE 4 - c[3]
\* 4 x linear interpolation in frequency of the cell (v, p, pixel x)
FCell(o, v, p, fc, x) == CAdd(CScale(ECell(o, v, p, fc[1] + 1, x), W4(fc, FALSE)), CScale(ECell(o, v, p, fc[2] + 1, x), W4(fc, TRUE)))
\* 64 x interpolation
PCell(o, v, p, fc, pt) ==
  IF o.meta.cs = "healpix" THEN CScale(FCell(o, v, p, fc, pt[1] + 1), 16)
  ELSE LET zc == pt[1]
           ac == pt[2]
           n1 == BN(o, "ax1")
           at(z, a) == FCell(o, v, p, fc, z * n1 + a + 1)
       IN CAdd(CAdd(CScale(at(zc[1], ac[1]), W4(zc, FALSE) * W4(ac, FALSE)), CScale(at(zc[1], ac[2]), W4(zc, FALSE) * W4(ac, TRUE))),
               CAdd(CScale(at(zc[2], ac[1]), W4(zc, TRUE) * W4(ac, FALSE)), CScale(at(zc[2], ac[2]), W4(zc, TRUE) * W4(ac, TRUE))))
BpAt(o, fc) == (BFreqs(o)[fc[1] + 1].bp * W4(fc, FALSE) + BFreqs(o)[fc[2] + 1].bp * W4(fc, TRUE))
CplAt(o, fc, e1, e2, fa, fb) ==
  LET c(f) == CellAt(CPCube(o), <<e1, e2, fa, fb, f>>)
  IN CAdd(CScale(c(fc[1] + 1), W4(fc, FALSE)), CScale(c(fc[2] + 1), W4(fc, TRUE)))
CplSeq(o, fcs) ==
  LET d == <<o.meta.Nel, o.meta.Nel, BN(o, "pol"), BN(o, "pol"), Len(fcs)>>
  IN [q \in 1..ProdFrom(d, 1) |-> LET m == Unflat(d, q) IN CplAt(o, fcs[m[5]], m[1], m[2], m[3], m[4])]
InterpFails(o, a) ==
  \/ Has(a, "pols") /\ (o.meta.type # "power" \/ ~(Range1(a.pols) \subseteq PolNames(o)))
  \/ a.bad
InterpWant(o, a) ==
  LET ps == IF Has(a, "pols") THEN [k \in 1..Len(a.pols) |-> CHOOSE i \in 1..BN(o, "pol") : BPols(o)[i].p = a.pols[k]] ELSE NumSeq(BN(o, "pol"))
      d == <<BN(o, "vec"), Len(ps), Len(a.fcs), Len(a.pts)>>
  IN [q \in 1..ProdFrom(d, 1) |-> LET m == Unflat(d, q) IN PCell(o, m[1], ps[m[2]], a.fcs[m[3]], a.pts[m[4]])]
NearC(x, y, tol) == Near(x[1], y[1], tol) /\ Near(x[2], y[2], tol)
InterpClauses(o, a, out, r) ==
  IF InterpFails(o, a) THEN Clause(out = "error", "bad-interpolation-accepted")
  ELSE IF out = "error" THEN {"interpolation-refused"}
  ELSE LET w == InterpWant(o, a)
           np == IF Has(a, "pols") THEN Len(a.pols) ELSE BN(o, "pol")
       IN Clause(r.shape = <<BN(o, "vec"), np, Len(a.fcs), Len(a.pts)>>, "returned-shape")
     \cup Clause(Len(r.vals) = Len(w) /\ \A q \in 1..Len(w) : NearC(r.vals[q], w[q], 1), "interpolated-values")
     \cup Clause(~Has(r, "bp") \/ r.bp = [k \in 1..Len(a.fcs) |-> BpAt(o, a.fcs[k])], "interpolated-bandpass")
     \cup Clause(~Has(r, "cpl") \/ (LET c == CplSeq(o, a.fcs) IN Len(r.cpl) = Len(c) /\ \A q \in 1..Len(c) : NearC(r.cpl[q], c[q], 1)), "interpolated-coupling")
     \cup Clause(o.meta.type = "power" \/ r.bv = "unit", "basis-vectors")
\* a new object (cells in 1/64, bandpass and coupling in 1/4) on the grid given by a.newax
InterpObjClauses(o, a, out, post) ==
  IF InterpFails(o, a) THEN Clause(out = "error", "bad-interpolation-accepted")
  ELSE IF out = "error" THEN {"interpolation-refused"}
  ELSE LET w == InterpWant(o, a)
           fl(k) == [f |-> a.newf[k], bp |-> BpAt(o, a.fcs[k])]
       IN BWFClauses(post)
     \cup Clause(Len(post.cells) = Len(w) /\ \A q \in 1..Len(w) : NearC(post.cells[q], w[q], 1), "interpolated-values")
     \cup Clause([k \in 1..BN(post, "pol") |-> BPols(post)[k].p] = IF Has(a, "pols") THEN a.pols ELSE [k \in 1..BN(o, "pol") |-> BPols(o)[k].p], "pol-labels")
     \cup Clause(\A k \in 1..Len(a.fcs) : [f |-> BFreqs(post)[k].f, bp |-> BFreqs(post)[k].bp] = fl(k), "freq-labels")
     \cup Clause(post.meta.cs = a.newcs /\ \A k \in 1..Len(PixAx(post)) : post.axes[PixAx(post)[k]] = a.newax[PixAx(post)[k]], "pixel-labels")
     \cup Clause(o.cpl = <<>> \/ (LET c == CplSeq(o, a.fcs) IN Len(post.cpl) = Len(c) /\ \A q \in 1..Len(c) : NearC(post.cpl[q], c[q], 1)), "interpolated-coupling")
     \cup Clause(BSameMeta(o, post, {"cs", "nside", "ordering"}), "scalar-metadata")

\* a beam that is constant over the sky, to healpix: a.all[k] = [x pixel, in (inside the grid), out (far outside)]
ToHealpixClauses(o, a, out, post) ==
  IF out = "error" THEN {"conversion-refused"}
  ELSE LET inpix == {post.axes.pix[k].x : k \in 1..BN(post, "pix")}
       IN BWFClauses(post)
     \cup Clause(post.meta.cs = "healpix" /\ post.meta.nside = a.nside /\ post.meta.ordering = "ring" /\ DistinctSeq(post.axes.pix), "pixelization")
     \cup Clause(\A k \in 1..Len(a.all) : (a.all[k].in => a.all[k].x \in inpix) /\ (a.all[k].out => a.all[k].x \notin inpix), "pixels-covered")
     \cup Clause(post.axes.pol = o.axes.pol /\ post.axes.freq = o.axes.freq, "labels")
     \cup Clause(\A v \in 1..BN(o, "vec") : \A p \in 1..BN(o, "pol") : \A f \in 1..BN(o, "freq") : \A x \in 1..BN(post, "pix") :
                    NearC(ECell(post, v, p, f, x), ECell(o, v, p, f, 1), 0), "cells")
     \cup Clause(BSameMeta(o, post, {"cs", "nside", "ordering"}), "scalar-metadata")

\* solid angles: sums over the pixels (r.vals: complex per frequency, in units of the pixel area)
AreaClauses(o, a, out, r) ==
  IF o.meta.type # "power" \/ o.meta.norm # "peak" \/ o.meta.cs # "healpix" \/ BN(o, "vec") # 1 \/ a.pol \notin PolNames(o)
  THEN Clause(out = "error", "bad-area-accepted")
  ELSE IF out = "error" THEN {"area-refused"}
  ELSE LET p == CHOOSE i \in 1..BN(o, "pol") : BPols(o)[i].p = a.pol
           sqc(z) == <<z[1] * z[1] - z[2] * z[2], 2 * z[1] * z[2]>>
           term(f, x) == IF a.sq THEN sqc(ECell(o, 1, p, f, x)) ELSE ECell(o, 1, p, f, x)
           tot(f) == FoldLeft(LAMBDA acc, x : CAdd(acc, term(f, x)), <<0, 0>>, NumSeq(NPixel(o)))
       IN Clause(Len(r.vals) = BN(o, "freq") /\ \A f \in 1..BN(o, "freq") : NearC(r.vals[f], tot(f), 1), "beam-area")

-----------------------------------------------------------------------------
(* beamfits files *)
EvenSeq(s) == \A k \in 2..(Len(s) - 1) : Near(s[k + 1] - s[k], s[k] - s[k - 1], 1)
ExactSeq(s) == \A k \in 2..(Len(s) - 1) : s[k + 1] - s[k] = s[k] - s[k - 1]
BWriteFails(o) ==
  \/ o.meta.ant # "simple"
  \/ ~EvenSeq([k \in 1..BN(o, "freq") |-> BFreqs(o)[k].f])
  \/ o.meta.cs # "healpix" /\ (~EvenSeq([k \in 1..BN(o, "ax1") |-> o.axes.ax1[k].x]) \/ ~EvenSeq([k \in 1..BN(o, "ax2") |-> o.axes.ax2[k].x]))
  \/ o.meta.type = "power" /\ ~ExactSeq([k \in 1..BN(o, "pol") |-> BPols(o)[k].n])
  \/ o.badkw
BWriteClauses(o, exists, a, out, post) ==
  IF BWriteFails(o) \/ (exists /\ ~a.clobber) THEN Clause(out = "error", "bad-write-accepted") \cup Clause(post = o, "object-changed")
  ELSE IF out = "error" THEN {"valid-write-refused"}
  ELSE Clause(post = o, "object-changed")
BReadSel(o, a) ==
  LET in(x, r) == x >= r[1] /\ x <= r[2]
      axs == <<"freq">> \o PixAx(o)
      keep(ax) == IF ax = "freq" THEN {k \in 1..BN(o, ax) : Has(a, "fr") => in(BFreqs(o)[k].f, a.fr)}
                  ELSE IF ax = "ax1" THEN {k \in 1..BN(o, ax) : Has(a, "azr") => in(o.axes.ax1[k].x, a.azr)}
                  ELSE IF ax = "ax2" THEN {k \in 1..BN(o, ax) : Has(a, "zar") => in(o.axes.ax2[k].x, a.zar)}
                  ELSE 1..BN(o, ax)
  IN [ax \in Range1(axs) |-> keep(ax)]
BReadClauses(f, a, out, post) ==
  LET s == BReadSel(f, a)
      axs == <<"freq">> \o PixAx(f)
  IN IF f.meta.cs = "healpix" /\ (Has(a, "azr") \/ Has(a, "zar")) THEN Clause(out = "error", "bad-read-accepted")
     ELSE IF \E ax \in DOMAIN s : s[ax] = {} THEN Clause(out = "error", "empty-read-accepted")
     ELSE IF out = "error" THEN {"valid-read-refused"}
     ELSE LET w == FoldLeft(LAMBDA acc, ax : BTake(acc, ax, IdxSeq(s[ax])), f, axs)
          IN BWFClauses(post) \cup BDiff(w, post, {"dt"})
=============================================================================
