------------------------------- MODULE MCLife -------------------------------
(***************************************************************************)
(* The life of a small data set, built from the very operators the traces  *)
(* of the real code are validated with (UVD, UVDIO): two registers a and b *)
(* and one file.  TLC explores every sequence of select, split, add,       *)
(* conjugate, reorder, write, partial write and partial read (MCLife.cfg,  *)
(* exhaustive), checks that no visibility ever parts from its labels and   *)
(* that the algebraic laws hold in every reachable state, and prints       *)
(* random behaviours (MCLifeSim.cfg) that drivers/life.py replays into the *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS UVDIO, Json
CONSTANTS D, Sim, PairsC, PolsC, TimesC, FreqsC
VARIABLES a, b, file, todo, hist
vars == <<a, b, file, todo, hist>>

Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x < y THEN y ELSE x
\* the sky: what the visibility with these labels is, from whichever end it is described
Truth(a1, a2, t, f, p) ==
  LET q == IF a1 > a2 THEN PolConj(p) ELSE p
      tok == 10000 * Lo(a1, a2) + 1000 * Hi(a1, a2) + 100 * t + 10 * f + (0 - q)
  IN <<tok, IF a1 > a2 THEN 0 - (tok + 1) ELSE tok + 1, (t + f + Abs(q)) % 2, 1000 * (1 + ((t + f) % 3))>>

AntTab == <<1, 2, 3>>
MkBlt(t, pr) == [t |-> t, lst |-> t, a1 |-> pr[1], a2 |-> pr[2], bl |-> 65536 + 8192 * pr[1] + pr[2], it |-> 1,
                 uvw |-> <<10 * (pr[2] - pr[1]), pr[2] * pr[2] - pr[1] * pr[1], 0>>, pcid |-> 0, pc |-> "zen", pcr |-> "", scan |-> -1, app |-> <<0>>]
U0 ==
  LET nb == Len(PairsC) * Len(TimesC)
      blt == [i \in 1..nb |-> MkBlt(TimesC[((i - 1) \div Len(PairsC)) + 1], PairsC[((i - 1) % Len(PairsC)) + 1])]
      fr == [j \in 1..Len(FreqsC) |-> [f |-> FreqsC[j], w |-> 1, spw |-> 0, fp |-> 0, eq |-> <<>>]]
      po == [k \in 1..Len(PolsC) |-> [p |-> PolsC[k]]]
      nf == Len(fr)
      np == Len(po)
  IN [order |-> <<"blt", "freq", "pol">>, axes |-> [blt |-> blt, freq |-> fr, pol |-> po],
      cells |-> [q \in 1..(nb * nf * np) |->
        LET i == ((q - 1) \div (nf * np)) + 1
            j == (((q - 1) \div np) % nf) + 1
            k == ((q - 1) % np) + 1
        IN Truth(blt[i].a1, blt[i].a2, blt[i].t, fr[j].f, po[k].p)],
      shape |-> <<>>, lens |-> <<>>,
      meta |-> [Nblts |-> nb, Nbls |-> Len(PairsC), Ntimes |-> Len(TimesC), Nfreqs |-> nf, Npols |-> np, Nspws |-> 1,
                Nants |-> Cardinality(UNION {{x[1], x[2]} : x \in Range1(PairsC)}), spws |-> <<0>>, order |-> <<>>, rect |-> "N", tfast |-> "N", units |-> "Jy", flexpol |-> FALSE,
                only |-> FALSE, eqconv |-> "", xkw |-> <<>>, opt |-> <<>>],
      tel |-> [name |-> "T", inst |-> "", xo |-> "", loc |-> <<0>>, nants |-> 3, lens |-> <<>>,
               ants |-> [k \in 1..3 |-> [num |-> AntTab[k], name |-> ToString(AntTab[k]), pos |-> <<k>>, diam |-> -1]]],
      cat |-> <<>>]
None == [U0 EXCEPT !.meta.units = "none"]
Has2(o) == o.meta.units # "none"

Recount(o) == [o EXCEPT !.meta.Nblts = NBlt(o), !.meta.Nbls = Cardinality({Blts(o)[i].bl : i \in 1..NBlt(o)}),
                        !.meta.Ntimes = Cardinality({Blts(o)[i].t : i \in 1..NBlt(o)}), !.meta.Nants = Cardinality(AntsInData(o)),
                        !.meta.Nfreqs = NFreq(o), !.meta.Npols = NPol(o)]

\* selections by one label, and their complements
Base == [keep |-> TRUE, rd |-> TRUE, badshape |-> FALSE, check |-> TRUE]
PairsOf(o) == {<<Blts(o)[i].a1, Blts(o)[i].a2>> : i \in 1..NBlt(o)}
TimesOf(o) == {Blts(o)[i].t : i \in 1..NBlt(o)}
Crits(o) ==
     {[keep |-> TRUE, rd |-> TRUE, badshape |-> FALSE, check |-> TRUE, bls |-> <<x>>] : x \in PairsOf(o) \cup {<<x[2], x[1]>> : x \in PairsOf(o)}}
\cup {[keep |-> TRUE, rd |-> TRUE, badshape |-> FALSE, check |-> TRUE, times |-> <<x>>] : x \in TimesOf(o)}
\cup {[keep |-> TRUE, rd |-> TRUE, badshape |-> FALSE, check |-> TRUE, freqs |-> <<Freqs(o)[j].f>>] : j \in 1..NFreq(o)}
\cup {[keep |-> TRUE, rd |-> TRUE, badshape |-> FALSE, check |-> TRUE, pols |-> <<Pols(o)[k].p>>] : k \in 1..NPol(o)}
\* everything else on the axis the criterion looks at (an inds/chans/pols criterion, 0-based)
Rest(o, c) ==
  [keep |-> TRUE, rd |-> TRUE, badshape |-> FALSE, check |-> TRUE] @@
  (IF Has(c, "bls") \/ Has(c, "times") THEN [inds |-> SetToSeq({i - 1 : i \in (1..NBlt(o)) \ SelBlts(o, c)})]
   ELSE IF Has(c, "freqs") THEN [chans |-> SetToSeq({j - 1 : j \in (1..NFreq(o)) \ SelFreqs(o, c)})]
   ELSE [pols |-> SetToSeq({Pols(o)[k].p : k \in (1..NPol(o)) \ SelPols(o, c)})])
Proper(o, c) == SelBlts(o, c) # {} /\ (SelBlts(o, c) # 1..NBlt(o) \/ SelFreqs(o, c) # 1..NFreq(o) \/ SelPols(o, c) # 1..NPol(o))
Sel(o, c) == Recount(SelectPost(o, c))

\* one result that satisfies UnionClauses
UnionPost(x, y) ==
  LET bx == BKeys(x)
      fx == FKeys(x)
      px == PKeys(x)
      nb == IdxSeq({i \in 1..NBlt(y) : PosIn(bx, BKeys(y)[i]) = 0})
      nf == IdxSeq({j \in 1..NFreq(y) : PosIn(fx, FKeys(y)[j]) = 0})
      np == IdxSeq({k \in 1..NPol(y) : PosIn(px, PKeys(y)[k]) = 0})
      blt == Blts(x) \o PickIdx(Blts(y), nb)
      fr == Freqs(x) \o PickIdx(Freqs(y), nf)
      po == Pols(x) \o PickIdx(Pols(y), np)
      o0 == [x EXCEPT !.axes.blt = blt, !.axes.freq = fr, !.axes.pol = po]
      F == Len(fr)
      P == Len(po)
      at(q) == LET i == ((q - 1) \div (F * P)) + 1
                   j == (((q - 1) \div P) % F) + 1
                   k == ((q - 1) % P) + 1
                   iy == PosIn(BKeys(y), BKey(blt[i]))
                   jy == PosIn(FKeys(y), FKey(fr[j]))
                   ky == PosIn(PKeys(y), po[k].p)
                   ix == PosIn(bx, BKey(blt[i]))
                   jx == PosIn(fx, FKey(fr[j]))
                   kx == PosIn(px, po[k].p)
               IN IF iy # 0 /\ jy # 0 /\ ky # 0 THEN Cell3(y, iy, jy, ky)
                  ELSE IF ix # 0 /\ jx # 0 /\ kx # 0 THEN Cell3(x, ix, jx, kx) ELSE PadCell
  IN Recount([o0 EXCEPT !.cells = [q \in 1..(Len(blt) * F * P) |-> at(q)]])

\* the object as a map from labels to values (order of the axes forgotten)
Map(o) == {<<Blts(o)[i].t, Blts(o)[i].a1, Blts(o)[i].a2, Freqs(o)[j].f, Pols(o)[k].p>> \o Cell3(o, i, j, k) :
             i \in 1..NBlt(o), j \in 1..NFreq(o), k \in 1..NPol(o)}
SameBlts(o, x) == Range1(Blts(o)) = Range1(Blts(x)) /\ Range1(Freqs(o)) = Range1(Freqs(x)) /\ Range1(Pols(o)) = Range1(Pols(x))

Log(act, args, out, na, nb2) == hist' = IF ~Sim THEN Append(hist, act) ELSE Append(hist, [act |-> act, args |-> args, out |-> out, a |-> Map(na), b |-> IF Has2(nb2) THEN Map(nb2) ELSE {}, hasb |-> Has2(nb2)])
FileIdle == UNCHANGED <<file, todo>>

SelectA == \E c \in Crits(a) : /\ Proper(a, c)
                               /\ a' = Sel(a, c) /\ b' = b /\ FileIdle /\ Log("Select", c, "ok", a', b)
Split == /\ ~Has2(b)
         /\ \E c \in Crits(a) : LET r == Rest(a, c) IN
              /\ Proper(a, c)
              /\ b' = Sel(a, c) /\ a' = Sel(a, r) /\ FileIdle /\ Log("Split", [first |-> c, rest |-> r], "ok", a', b')
Add == /\ Has2(b) /\ ~AddFails(a, b)
       /\ a' = UnionPost(a, b) /\ b' = None /\ FileIdle /\ Log("Add", Base, "ok", a', b')
AddRefused == /\ Has2(b) /\ AddFails(a, b)
              /\ UNCHANGED <<a, b>> /\ FileIdle /\ Log("Add", Base, "error", a, b)
Drop == /\ Has2(b) /\ b' = None /\ a' = a /\ FileIdle /\ Log("Drop", Base, "ok", a, b')
Swap == /\ Has2(b) /\ a' = b /\ b' = a /\ FileIdle /\ Log("Swap", Base, "ok", a', b')
\* (conjugating where both directions of one baseline-time are held would make two rows with one label)
NoRepeats(o) == DistinctSeq(BKeys(o)) /\ DistinctSeq(FKeys(o)) /\ DistinctSeq(PKeys(o))
Convs == {[conv |-> "ant1<ant2", enu |-> FALSE, tol |-> 0], [conv |-> "ant2<ant1", enu |-> FALSE, tol |-> 0],
          [conv |-> "u<0", enu |-> FALSE, tol |-> 0], [conv |-> "v>0", enu |-> FALSE, tol |-> 0]}
PairConv(o, pr) == [conv |-> "index", enu |-> FALSE, tol |-> 0, inds |-> SetToSeq({i - 1 : i \in {j \in 1..NBlt(o) : Blts(o)[j].a1 = pr[1] /\ Blts(o)[j].a2 = pr[2]}}), pr |-> pr]
Conj == \E v \in Convs \cup {PairConv(a, pr) : pr \in PairsOf(a)} :
          LET S == ConjSet(a, v) IN
          /\ S # {}
          /\ IF HasConjPols(a) THEN NoRepeats(ConjPost(a, S)) /\ a' = Recount(ConjPost(a, S)) /\ Log("Conj", v, "ok", a', b) ELSE a' = a /\ Log("Conj", v, "error", a, b)
          /\ b' = b /\ FileIdle
SortBy(o, keys) == LET idx == SortSeq([i \in 1..NBlt(o) |-> i], LAMBDA x, y : LexLe(Blts(o)[x], Blts(o)[y], keys) /\ (x < y \/ ~LexLe(Blts(o)[y], Blts(o)[x], keys))) IN Take(o, "blt", idx)
Reorder == \E keys \in {<<"time", "baseline">>, <<"baseline", "time">>, <<"ant2", "ant1">>} :
             /\ a' = SortBy(a, keys) /\ b' = b /\ FileIdle /\ Log("ReorderBlts", [keys |-> keys, autos |-> FALSE], "ok", a', b)
ReorderP == \E kind \in {"AIPS", "CASA"} :
             /\ a' = Take(a, "pol", SortSeq([k \in 1..NPol(a) |-> k], LAMBDA x, y : PolRank(kind, Pols(a)[x].p) < PolRank(kind, Pols(a)[y].p)))
             /\ b' = b /\ FileIdle /\ Log("ReorderPols", [kind |-> kind], "ok", a', b)
ReorderF == \E ch \in {"freq", "-freq"} :
             /\ a' = Take(a, "freq", ReorderFreqIdx(a, [chan |-> ch]))
             /\ b' = b /\ FileIdle /\ Log("ReorderFreqs", [chan |-> ch], "ok", a', b)
Write == /\ file' = a /\ todo' = {} /\ UNCHANGED <<a, b>> /\ Log("Write", Base, "ok", a, b)
InitFile == /\ file' = Blank(a) /\ todo' = 1..Len(a.cells) /\ UNCHANGED <<a, b>> /\ Log("InitFile", Base, "ok", a, b)
WritePart == /\ Has2(file) /\ HeaderOf(a) = HeaderOf(file) /\ todo # {}
             /\ \E c \in Crits(a) : /\ SelBlts(a, c) # {}
                                    /\ SelCells(a, c) \cap todo # {}
                                    /\ file' = PartPost(file, c, SelectPost(a, c).cells)
                                    /\ todo' = todo \ SelCells(a, c)
                                    /\ UNCHANGED <<a, b>> /\ Log("WritePart", c, "ok", a, b)
ReadA == /\ Has2(file) /\ todo = {} /\ a' = Recount(file) /\ UNCHANGED <<b, file, todo>> /\ Log("ReadAll", Base, "ok", a', b)
ReadB == /\ Has2(file) /\ ~Has2(b)
         /\ \E c \in Crits(file) : /\ SelBlts(file, c) # {} /\ SelCells(file, c) \cap todo = {}
                                   /\ b' = Sel(file, c) /\ UNCHANGED <<a, file, todo>> /\ Log("ReadPart", c, "ok", a, b')

Init == a = U0 /\ b = None /\ file = None /\ todo = {} /\ hist = IF ~Sim THEN <<"Init">> ELSE <<[act |-> "Init", args |-> Base, out |-> "ok", a |-> Map(U0), b |-> {}, hasb |-> FALSE]>>
\* (when generating behaviours: objects should not shrink to nothing at once)
Few(act, n) == IF ~Sim THEN TRUE ELSE Cardinality({i \in 1..Len(hist) : hist[i].act = act}) < n
Step == (Few("Select", 1) /\ SelectA) \/ (Few("Split", 3) /\ Split) \/ Add \/ AddRefused \/ (Few("Drop", 1) /\ Drop) \/ (Few("Swap", 2) /\ Swap) \/ (Few("Conj", 3) /\ Conj) \/ (Few("ReorderBlts", 2) /\ Reorder) \/ (Few("ReorderPols", 2) /\ ReorderP)
        \/ (Few("ReorderFreqs", 2) /\ ReorderF) \/ Write \/ InitFile \/ WritePart \/ ReadA \/ ReadB
Emit == Sim /\ Len(hist) > D /\ PrintT("VFBEH|" \o ToJson(hist) \o "|END") /\ UNCHANGED vars
Next == ((IF Sim THEN Len(hist) <= D ELSE TRUE) /\ Step) \/ Emit
Spec == Init /\ [][Next]_vars
\* exploring: the history is not part of the state
View == <<a, b, file, todo, Len(hist)>>
Bound == Len(hist) <= D

-----------------------------------------------------------------------------
ProvCell(o, i, j, k) == Cell3(o, i, j, k) = Truth(Blts(o)[i].a1, Blts(o)[i].a2, Blts(o)[i].t, Freqs(o)[j].f, Pols(o)[k].p)
Prov(o) == \A i \in 1..NBlt(o), j \in 1..NFreq(o), k \in 1..NPol(o) : ProvCell(o, i, j, k) \/ Cell3(o, i, j, k) = PadCell
Provenance == Prov(a) /\ (Has2(b) => Prov(b))
FileProvenance == Has2(file) => \A q \in 1..Len(file.cells) :
    LET nf == NFreq(file)
        np == NPol(file)
        i == ((q - 1) \div (nf * np)) + 1
        j == (((q - 1) \div np) % nf) + 1
        k == ((q - 1) % np) + 1
    IN IF q \in todo THEN file.cells[q] = ZeroCell ELSE ProvCell(file, i, j, k) \/ file.cells[q] = PadCell
WellFormed == WellFormedClauses(a) = {} /\ (Has2(b) => WellFormedClauses(b) = {})
Unique == NoRepeats(a)
\* laws, in every reachable state
SplitAddIsIdentity == \A c \in Crits(a) : Proper(a, c) => LET x == Sel(a, c)
                                                             y == Sel(a, Rest(a, c))
                                                         IN /\ ~AddFails(x, y) /\ UnionClauses(x, y, UnionPost(x, y)) = {}
                                                            /\ Map(UnionPost(x, y)) = Map(a) /\ Map(UnionPost(y, x)) = Map(a)
ConjInvolution == \A v \in Convs : LET S == ConjSet(a, v) IN HasConjPols(a) =>
                    /\ ConjPost(ConjPost(a, S), S) = a
                    /\ ConjSet(ConjPost(a, S), v) = {}
SelectIdempotent == \A c \in Crits(a) : Proper(a, c) => Sel(Sel(a, c), c) = Sel(a, c)
SelectCommutes == \A c \in Crits(a), d \in Crits(a) :
                    (DOMAIN c \cap DOMAIN d = DOMAIN Base /\ SelBlts(a, c) \cap SelBlts(a, d) # {}) =>
                      (~SelectFails(Sel(a, c), d) /\ ~SelectFails(Sel(a, d), c) => Sel(Sel(a, c), d) = Sel(Sel(a, d), c) /\ Sel(Sel(a, c), d) = Sel(a, c @@ d))
\* (the same baseline can be held in both directions, after adding pieces; a pair then selects its own direction)
OneWay(o) == \A x \in PairsOf(o) : <<x[2], x[1]>> \notin PairsOf(o)
SelectConjCommute == OneWay(a) => \A c \in Crits(a), v \in Convs : (HasConjPols(a) /\ ~Has(c, "pols") /\ SelBlts(a, c) # {}) =>
                      LET x == Sel(ConjPost(a, ConjSet(a, v)), c)
                          y == Sel(a, c)
                      IN x = Recount(ConjPost(y, ConjSet(y, v)))
=============================================================================
