------------------------------- MODULE UVDIO -------------------------------
(***************************************************************************)
(* Files.  The file store fs maps a path to the abstract object it holds.  *)
(*   Write(o, path)       fs[path] becomes o as the format can hold it     *)
(*   Init / Part          a UVH5 file created empty, filled piece by piece *)
(*   Read(path, criteria) the stored object restricted like Select         *)
(* A refused call leaves fs as it was; the file contents are only ever     *)
(* observed through later reads.                                           *)
(***************************************************************************)
EXTENDS UVDAccess

ZeroCell == <<0, 0, 0, 0>>
Blank(o) == [o EXCEPT !.cells = [q \in 1..(NBlt(o) * NFreq(o) * NPol(o)) |-> ZeroCell], !.meta.only = FALSE]
NoCells(o) == [o EXCEPT !.cells = <<>>, !.meta.only = TRUE]
HeaderOf(o) == [o EXCEPT !.cells = <<>>, !.meta.only = TRUE, !.shape = <<>>]
\* positions (1-based, row major) of the selected cells
SelCells(o, a) ==
  LET B == SelBlts(o, a)
      F == SelFreqs(o, a)
      P == SelPols(o, a)
      nf == NFreq(o)
      np == NPol(o)
  IN {q \in 1..(NBlt(o) * nf * np) : /\ ((q - 1) \div (nf * np)) + 1 \in B
                                     /\ (((q - 1) \div np) % nf) + 1 \in F
                                     /\ ((q - 1) % np) + 1 \in P}
PartPost(f, a, cells) ==
  LET Q == IdxSeq(SelCells(f, a))
      at == [q \in Range1(Q) |-> CHOOSE k \in 1..Len(Q) : Q[k] = q]
  IN [f EXCEPT !.cells = [q \in 1..Len(f.cells) |-> IF q \in DOMAIN at THEN cells[at[q]] ELSE f.cells[q]]]
PartFails(o, f, a) ==
  \/ SelectFails(o, a)
  \/ a.badshape
  \/ a.check /\ HeaderOf(o) # HeaderOf(f)
PartClauses(o, f, a, out) ==
  IF PartFails(o, f, a) THEN Clause(out = "error" \/ MayFail(o, a), "bad-part-accepted")
  ELSE Clause(out = "ok", "valid-part-refused")

\* criteria are documented to be ignored for metadata only reads
ReadWant(f, a) == IF a.rd THEN SelectPost(f, a) ELSE NoCells(f)
NoSel(a) == (BltCriteria \cup {"freqs", "chans", "pols"}) \cap DOMAIN a = {}
ReadClauses(f, a, out, post) ==
  IF a.rd /\ SelectFails(f, a) THEN Clause(out = "error" \/ MayFail(f, a), "bad-selection-accepted")
  ELSE IF out = "error" THEN Clause(~a.rd /\ Has(a, "ants") /\ Has(a, "antnames"), "valid-read-refused")
  ELSE WellFormedClauses(post) \cup Diff(ReadWant(f, a), post, {})
       \cup IF NoSel(a) \/ ~a.rd THEN Clause(post.meta = ReadWant(f, a).meta, "metadata-round-trip") ELSE {}

-----------------------------------------------------------------------------
(* the header-only view of a file *)
PairSet(o) == {<<Blts(o)[i].a1, Blts(o)[i].a2>> : i \in 1..NBlt(o)}
HasPairEither(o, x, y) == <<x, y>> \in PairSet(o) \/ <<y, x>> \in PairSet(o)
IsGrid(o) == TimesFastGrid(o) \/ BlsFastGrid(o)
MetaClauses(f, a, out, r) ==
  IF out = "error" THEN {"header-view-refused"} ELSE
     Clause(r.nblts = NBlt(f) /\ r.nbls = f.meta.Nbls /\ r.ntimes = f.meta.Ntimes /\ r.npols = NPol(f) /\ r.nfreqs = NFreq(f), "meta-counts")
\cup Clause(Range1(r.times) = {Blts(f)[i].t : i \in 1..NBlt(f)} /\ DistinctSeq(r.times), "meta-times")
\cup Clause(Range1(r.lsts) = {Blts(f)[i].lst : i \in 1..NBlt(f)}, "meta-lsts")
\cup Clause(Range1(r.pairs) = PairSet(f) /\ DistinctSeq(r.pairs), "meta-antpairs")
\cup Clause(Range1(r.ants) = AntsInData(f), "meta-ants")
\cup Clause(r.bls = [i \in 1..NBlt(f) |-> Blts(f)[i].bl], "meta-baselines")
\cup Clause(Range1(r.ubls) = {Blts(f)[i].bl : i \in 1..NBlt(f)}, "meta-unique-baselines")
\cup Clause(r.pols = [k \in 1..NPol(f) |-> Pols(f)[k].p], "meta-pols")
\cup Clause(r.rect => IF r.tfast THEN TimesFastGrid(f) ELSE BlsFastGrid(f), "meta-rectangularity")
\cup Clause(~r.rect => f.meta.rect = "F" \/ ~IsGrid(f), "meta-not-rectangular")
\cup Clause(r.order = <<>> \/ OrderTrue([f EXCEPT !.meta.order = r.order]), "meta-blt-order")
\cup Clause(\A q \in Range1(r.keys) : q.has = (HasPairEither(f, q.key[1], q.key[2]) /\
        (Len(q.key) = 2 \/ (<<q.key[1], q.key[2]>> \in PairSet(f) /\ \E k \in 1..NPol(f) : Pols(f)[k].p = q.key[3])
                        \/ (<<q.key[2], q.key[1]>> \in PairSet(f) /\ \E k \in 1..NPol(f) : Pols(f)[k].p = PolConj(q.key[3])))), "meta-has-key")
\cup Clause(r.units = f.meta.units, "meta-units")
\cup Clause(r.ants_tel = [k \in 1..Len(f.tel.ants) |-> <<f.tel.ants[k].num, f.tel.ants[k].name>>], "meta-telescope")
\cup Clause(\A k \in 1..Len(r.enu) : \A x \in 1..3 : Near(r.enu[k][x], a.enu[ToString(f.tel.ants[k].num)][x], 2), "meta-enu")
\cup Clause(OrderTrue(r.uvd) /\ [r.uvd EXCEPT !.meta.order = f.meta.order] = HeaderOf(f) /\ (f.meta.order = <<>> \/ r.uvd.meta.order = f.meta.order), "meta-to-uvdata")
=============================================================================
