------------------------------- MODULE UVDAvg -------------------------------
(***************************************************************************)
(* Averaging and resampling in time and frequency.  Cells carry data       *)
(* scaled by 100, integer sample counts scaled by 1000; integration times  *)
(* are in ms and multiples of 250 ms.                                      *)
(* For rows without a fixed sky direction (unprojected, driftscan) the     *)
(* averaged cells are those seen from a common direction: the driver logs  *)
(* the cells of the object before (pcells) and after (qcells) as phased    *)
(* there, an operation specified in UVDPhase.                              *)
(***************************************************************************)
EXTENDS UVDAccess

MS == 1
Cell(o, cs, i, j, k) == cs[((i - 1) * NFreq(o) + (j - 1)) * NPol(o) + k]
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
TypeOf(o, i) == LET S == {k \in 1..Len(o.cat) : o.cat[k].id = Blts(o)[i].pcid}
                IN IF S = {} THEN "?" ELSE o.cat[CHOOSE k \in S : TRUE].type
Drifty(o, i) == TypeOf(o, i) \in {"unprojected", "driftscan"}
BlsOf(o) == {Blts(o)[i].bl : i \in 1..NBlt(o)}
ByTime(o, S) == SetToSortSeq(S, LAMBDA x, y : Blts(o)[x].t < Blts(o)[y].t \/ (Blts(o)[x].t = Blts(o)[y].t /\ x < y))
BlRows(o, bl) == ByTime(o, {i \in 1..NBlt(o) : Blts(o)[i].bl = bl})
ItU(o, i) == Blts(o)[i].it \div 250

\* greedy windows along one baseline
RECURSIVE Wins(_, _, _, _, _, _)
Wins(o, rows, k, acc, run, a) ==
  IF k > Len(rows) THEN (IF acc = <<>> \/ ~a.ragged THEN <<>> ELSE <<acc>>)
  ELSE LET acc2 == Append(acc, rows[k])
           run2 == run + Blts(o)[rows[k]].it
           full == IF a.mode = "n" THEN Len(acc2) >= a.n ELSE run2 >= a.min - MS
       IN IF full THEN <<acc2>> \o Wins(o, rows, k + 1, <<>>, 0, a)
                  ELSE Wins(o, rows, k + 1, acc2, run2, a)
DownBls(o, a) == {bl \in BlsOf(o) : a.mode = "n" \/ \E i \in 1..NBlt(o) : Blts(o)[i].bl = bl /\ Blts(o)[i].it < a.min - MS}
WinsOf(o, bl, a) == IF bl \in DownBls(o, a) THEN Wins(o, BlRows(o, bl), 1, <<>>, 0, a)
                    ELSE [k \in 1..Len(BlRows(o, bl)) |-> <<BlRows(o, bl)[k]>>]
EffPc(o, i, a) == IF Drifty(o, i) /\ ~a.drift THEN -1 ELSE Blts(o)[i].pcid
Mixed(o, a) == \E bl \in DownBls(o, a) : LET W == WinsOf(o, bl, a) IN
                  \E w \in 1..Len(W) : Cardinality({EffPc(o, W[w][x], a) : x \in 1..Len(W[w])}) > 1
DownFails(o, a) == a.bad \/ o.meta.Ntimes = 1 \/ Mixed(o, a)
                   \/ \A bl \in BlsOf(o) : WinsOf(o, bl, a) = <<>>

RowLabels(o, p, i, r) == \* output row r of p came from row i of o
  /\ Blts(p)[r].a1 = Blts(o)[i].a1 /\ Blts(p)[r].a2 = Blts(o)[i].a2
  /\ IF TypeOf(o, i) = "unprojected" THEN TypeOf(p, r) = "unprojected"
     ELSE Blts(p)[r].pc = Blts(o)[i].pc /\ Blts(p)[r].pcr = Blts(o)[i].pcr

\* averaging of a set of (already located) contributing cells; wt = weight of each, per(x) = its share in nsample
AvgCell(S, c(_), wt(_), ln(_), outc, sum, prop) ==
  LET U == {x \in S : c(x)[3] = 0}
      use == IF U = {} THEN S ELSE U
      w(x) == (c(x)[4] \div 1000) * wt(x)
      sw == SumOver(use, w)
      swr == SumOver(use, LAMBDA x : w(x) * c(x)[1])
      swi == SumOver(use, LAMBDA x : w(x) * c(x)[2])
      sr == SumOver(use, LAMBDA x : c(x)[1])
      si == SumOver(use, LAMBDA x : c(x)[2])
      tol == 3
  IN /\ (outc[3] = 1) = (IF prop THEN U # S ELSE U = {})
     /\ IF sum THEN Near(outc[1], sr, tol * Cardinality(S)) /\ Near(outc[2], si, tol * Cardinality(S))
        ELSE sw = 0 \/ (Near(outc[1] * sw, swr, tol * sw) /\ Near(outc[2] * sw, swi, tol * sw))
     /\ LET tot == SumOver(S, ln)
            sn == SumOver(use, LAMBDA x : (c(x)[4] \div 1000) * ln(x))
        IN Near(outc[4] * tot, 1000 * sn, 2 * tot)

SameAxesBut(o, p) ==
     Clause(Freqs(o) = Freqs(p) /\ Pols(o) = Pols(p), "resample-changed-axes")
\cup Clause(o.tel = p.tel, "resample-changed-telescope")
\cup Clause(SameMetaExcept(o, p, {"rect", "tfast", "Nblts", "Nbls", "Ntimes", "Nants", "order"}), "resample-changed-meta")

RefClauses(p, a) ==
     Clause(\A r \in 1..NBlt(p) : \A k \in 1..3 : Near(Blts(p)[r].uvw[k], a.uvw[r][k], 3), "resample-uvw")
\cup Clause(\A r \in 1..NBlt(p) : NearMod(Blts(p)[r].lst, a.lst[r], 62831853, 20), "resample-lst")
\cup Clause(\A r \in 1..NBlt(p) : a.app[r] = <<>> \/ \A k \in 1..3 : NearMod(Blts(p)[r].app[k], a.app[r][k], 6283185, 12), "resample-app-coords")
\cup Clause(a.orders = <<>> \/ p.meta.Ntimes > Cardinality({Blts(p)[i].t : i \in 1..NBlt(p)}) \/ \A r \in 1..(NBlt(p) - 1) : LexLe(Blts(p)[r], Blts(p)[r + 1], a.orders), "resample-order")

DownRowOk(o, p, a, W, r) ==
  LET S == Range1(W)
      first == W[1]
      tot == SumOver(S, LAMBDA x : ItU(o, x))
      mom == SumOver(S, LAMBDA x : ItU(o, x) * (Blts(o)[x].t - Blts(o)[first].t))
  IN /\ Near(Blts(p)[r].it, SumOver(S, LAMBDA x : Blts(o)[x].it), 1)
     /\ Near((Blts(p)[r].t - Blts(o)[first].t) * tot, mom, 3 * tot)
DownClauses(o, a, out, p) ==
  IF out = "error" THEN Clause(DownFails(o, a), "valid-call-refused")
  ELSE IF a.mode = "min" /\ DownBls(o, a) = {} /\ ~a.bad THEN Clause([p EXCEPT !.meta = o.meta] = o, "noop-changed-object")
  ELSE IF DownFails(o, a) THEN {"invalid-call-accepted"}
  ELSE LET pairs == UNION {LET W == WinsOf(o, bl, a)
                               R == BlRows(p, bl)
                           IN {<<W[k], R[k]>> : k \in 1..(IF Len(W) < Len(R) THEN Len(W) ELSE Len(R))} : bl \in BlsOf(o)}
       IN SameAxesBut(o, p) \cup RefClauses(p, a)
     \cup Clause(BlsOf(p) \subseteq BlsOf(o) /\ \A bl \in BlsOf(o) : Len(BlRows(p, bl)) = Len(WinsOf(o, bl, a)), "downsample-row-count")
     \cup Clause(\A x \in pairs : DownRowOk(o, p, a, x[1], x[2]), "downsample-time-or-integration")
     \cup Clause(\A x \in pairs : \/ Cardinality({Blts(o)[i].pcid : i \in Range1(x[1])}) > 1
                                \/ \E m \in 1..Len(x[1]) : RowLabels(o, p, x[1][m], x[2]), "downsample-labels")
     \cup Clause(\A x \in pairs : Blts(p)[x[2]].scan \in {Blts(o)[i].scan : i \in Range1(x[1])}, "downsample-scan")
     \cup Clause(o.cells = <<>> \/ \A x \in pairs : \A j \in 1..NFreq(o) : \A k \in 1..NPol(o) :
             IF Len(x[1]) = 1 /\ Blts(o)[x[1][1]].bl \notin DownBls(o, a)
             THEN LET c == Cell(o, a.pcells, x[1][1], j, k)
                      d == Cell(p, a.qcells, x[2], j, k)
                  IN Near(c[1], d[1], 3) /\ Near(c[2], d[2], 3) /\ c[3] = d[3] /\ c[4] = d[4]
             ELSE AvgCell(Range1(x[1]), LAMBDA i : Cell(o, a.pcells, i, j, k), LAMBDA i : ItU(o, i),
                          LAMBDA i : ItU(o, i), Cell(p, a.qcells, x[2], j, k), a.sum, FALSE), "downsample-cells")

-----------------------------------------------------------------------------
UpRows(o, a) == {i \in 1..NBlt(o) : Blts(o)[i].it > a.max + MS}
\* number of pieces: ceil(it/max), forgiving rounding
Pieces(o, i, a) == IF i \in UpRows(o, a) THEN (Blts(o)[i].it + a.max - 2) \div a.max ELSE 1
\* twice the offset of piece k (1..n) from the centre, in units of it/n
PieceT(o, i, k, n) == Blts(o)[i].t + ((2 * k - 1 - n) * Blts(o)[i].it * 10) \div (2 * n)
UpClauses(o, a, out, p) ==
  IF out = "error" THEN Clause(a.bad, "valid-call-refused")
  ELSE IF a.bad THEN {"invalid-call-accepted"}
  ELSE IF UpRows(o, a) = {} THEN Clause(p = o, "noop-changed-object")
  ELSE LET exp == {<<i, k>> : i \in 1..NBlt(o), k \in 1..100}
           E == {x \in exp : x[2] <= Pieces(o, x[1], a)}
           tt(x) == PieceT(o, x[1], x[2], Pieces(o, x[1], a))
           rowsFor(x) == {r \in 1..NBlt(p) : Blts(p)[r].bl = Blts(o)[x[1]].bl /\ Near(Blts(p)[r].t, tt(x), 3)
                                             /\ Near(Blts(p)[r].it * Pieces(o, x[1], a), Blts(o)[x[1]].it, Pieces(o, x[1], a))}
       IN SameAxesBut(o, p) \cup RefClauses(p, a)
     \cup Clause(NBlt(p) = Cardinality(E) /\ \A x \in E : rowsFor(x) # {}, "upsample-rows")
     \cup Clause(\A x \in E : \A r \in rowsFor(x) : RowLabels(o, p, x[1], r) /\ Blts(p)[r].scan = Blts(o)[x[1]].scan, "upsample-labels")
     \cup Clause(o.cells = <<>> \/ \A x \in E : \A r \in rowsFor(x) : \A j \in 1..NFreq(o) : \A k \in 1..NPol(o) :
              LET c == Cell(o, a.pcells, x[1], j, k)
                  d == Cell(p, a.qcells, r, j, k)
                  n == IF a.sum THEN Pieces(o, x[1], a) ELSE 1
              IN Near(c[1], n * d[1], 3 * n) /\ Near(c[2], n * d[2], 3 * n) /\ c[3] = d[3] /\ c[4] = d[4], "upsample-cells")

-----------------------------------------------------------------------------
RECURSIVE Chunk(_, _, _)
Chunk(s, n, ragged) == IF Len(s) = 0 \/ (Len(s) < n /\ ~ragged) THEN <<>>
  ELSE <<SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)>> \o Chunk(SubSeq(s, n + 1, Len(s)), n, ragged)
SpwChunks(o, spw, a) == Chunk(IdxSeq({j \in 1..NFreq(o) : Freqs(o)[j].spw = spw}), a.n, a.ragged)
FreqChunks(o, a) == IF a.respect \/ o.meta.Nspws = 1
                    THEN FlattenSeq([s \in 1..Len(o.meta.spws) |-> SpwChunks(o, o.meta.spws[s], a)])
                    ELSE Chunk([j \in 1..NFreq(o) |-> j], a.n, a.ragged)
FreqAvgClauses(o, a, out, p) ==
  LET K == FreqChunks(o, a) IN
  IF out = "error" THEN Clause(K = <<>>, "valid-call-refused")
  ELSE IF K = <<>> THEN {}
  ELSE
     Clause(Blts(o) = Blts(p) /\ Pols(o) = Pols(p) /\ o.tel = p.tel /\ o.cat = p.cat, "freqavg-changed-others")
\cup Clause(SameMetaExcept(o, p, {"Nfreqs", "Nspws", "spws"}), "freqavg-changed-meta")
\cup IF NFreq(p) # Len(K) THEN {"freqavg-channel-count"} ELSE
     Clause(\A m \in 1..Len(K) :
        LET S == Range1(K[m])
            n == Len(K[m])
            F(j) == Freqs(o)[j]
        IN /\ Near(n * (Freqs(p)[m].f - F(K[m][1]).f), SumOver(S, LAMBDA j : F(j).f - F(K[m][1]).f), n)
           /\ Freqs(p)[m].w = SumOver(S, LAMBDA j : F(j).w)
           /\ Freqs(p)[m].spw = (IF a.respect \/ o.meta.Nspws = 1 THEN F(K[m][1]).spw ELSE 0)
           /\ Freqs(p)[m].fp = F(K[m][1]).fp
           /\ Len(Freqs(p)[m].eq) = Len(F(K[m][1]).eq)
           /\ \A q \in 1..Len(Freqs(p)[m].eq) : Near(n * Freqs(p)[m].eq[q], SumOver(S, LAMBDA j : F(j).eq[q]), n), "freqavg-channels")
     \cup Clause(o.cells = <<>> \/ \A m \in 1..Len(K) : \A i \in 1..NBlt(o) : \A k \in 1..NPol(o) :
            AvgCell(Range1(K[m]), LAMBDA j : Cell(o, o.cells, i, j, k), LAMBDA j : 1, LAMBDA j : 1,
                    Cell(p, p.cells, i, m, k), a.sum, a.prop), "freqavg-cells")
=============================================================================
