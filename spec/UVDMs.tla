------------------------------- MODULE UVDMs --------------------------------
(***************************************************************************)
(* Visibilities in measurement sets.  A file holds rows (one per baseline   *)
(* and time), windows, polarizations in CASA order and up to three data     *)
(* columns.  Writing keeps the object (scan numbers are filled in when      *)
(* there are none, unprojected data phased on request); reading gives the   *)
(* object back with windows in order of their numbers and the               *)
(* polarizations in the order asked for.                                    *)
(***************************************************************************)
EXTENDS UVDForm

MsFrames == {"icrs", "fk5", "fk4"}
UpSeq(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
RECURSIVE CatSeqs(_)
CatSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatSeqs(Tail(ss))
BySpw(o) == LET s == UpSeq(Range1(o.meta.spws)) IN CatSeqs([k \in 1..Len(s) |-> SpwMembers(o, s[k])])
ByNum(o) == LET s == SetToSortSeq(1..Len(o.tel.ants), LAMBDA x, y : o.tel.ants[x].num < o.tel.ants[y].num) IN [k \in 1..Len(s) |-> o.tel.ants[s[k]]]
\* number of the run of rows on one phase center, starting at 1
ScanNo(o, i) == 1 + Cardinality({k \in 2..i : Blts(o)[k].pcid # Blts(o)[k - 1].pcid})
NoScanAll(o) == NBlt(o) > 0 /\ \A i \in 1..NBlt(o) : Blts(o)[i].scan = -1
FillScans(o) == IF NoScanAll(o) THEN [o EXCEPT !.axes.blt = [i \in 1..NBlt(o) |-> [Blts(o)[i] EXCEPT !.scan = ScanNo(o, i)]]] ELSE o

\* (frequencies of the projection are in axes.freq; eq holds equalizer gains per antenna)
MsStored(o) ==
  LET s1 == Take(o, "freq", BySpw(o))
  IN [s1 EXCEPT !.axes.freq = [j \in 1..Len(@) |-> [@[j] EXCEPT !.eq = <<>>]],
                !.meta.spws = UpSeq(Range1(@)), !.meta.eqconv = "None", !.meta.rect = "N", !.meta.tfast = "N", !.meta.order = <<>>,
                !.tel.inst = o.tel.name, !.tel.ants = ByNum(o), !.shape = <<>>,
                !.cat = [k \in 1..Len(@) |-> [@[k] EXCEPT !.name = @]]]
\* a.cols: the other data columns written, as cells
MsEntry(o, a) ==
  [obj |-> MsStored(o), flip |-> a.flip,
   cols |-> [c \in DOMAIN a.cols |-> MsStored([o EXCEPT !.cells = a.cols[c], !.meta.units = "Jy"])]]

UsedTypes(o) == {o.cat[k].type : k \in {k \in 1..Len(o.cat) : \E i \in 1..NBlt(o) : Blts(o)[i].pcid = o.cat[k].id}}
MsWriteFails(o, a) ==
  \/ o.meta.only
  \/ "unprojected" \in UsedTypes(o) /\ ~a.phase
  \/ a.badcol
  \/ \E k \in 1..Len(o.cat) : o.cat[k].type = "sidereal" /\ o.cat[k].frame \notin MsFrames
MsWriteClauses(o, a, out, new) ==
  IF MsWriteFails(o, a) THEN Clause(out = "error", "unwritable-object-written")
  ELSE Clause(out = "ok" \/ \E k \in 1..Len(new.cat) : new.cat[k].type = "unprojected", "valid-write-refused")  \* a catalog with an unprojected entry no row uses may be refused
       \cup IF out = "error" THEN {}
            ELSE IF "unprojected" \in UsedTypes(o) THEN
                 Clause(UsedTypes(new) = {"sidereal"}, "not-phased")
            \cup Clause([i \in 1..NBlt(o) |-> <<Blts(o)[i].t, Blts(o)[i].a1, Blts(o)[i].a2, Blts(o)[i].it>>]
                        = [i \in 1..NBlt(new) |-> <<Blts(new)[i].t, Blts(new)[i].a1, Blts(new)[i].a2, Blts(new)[i].it>>]
                        /\ Freqs(o) = Freqs(new) /\ Pols(o) = Pols(new) /\ o.tel = new.tel, "operand-mutated")
            ELSE Clause([new EXCEPT !.lens = o.lens] = FillScans(o), "operand-mutated")

-----------------------------------------------------------------------------
(* reading *)
MsPolRank(p, order) == IF order = "AIPS" THEN Abs(p)
  ELSE CASE p > 0 -> p [] p \in {-1, -5} -> 11 [] p \in {-3, -7} -> 12 [] p \in {-4, -8} -> 13 [] p \in {-2, -6} -> 14 [] OTHER -> 0
PolsBy(o, order) == SetToSortSeq(1..NPol(o), LAMBDA x, y : MsPolRank(Pols(o)[x].p, order) < MsPolRank(Pols(o)[y].p, order))
DropSingles(o) ==
  LET keep == {s \in Range1(o.meta.spws) : SpwSize(o, s) > 1}
      t == Take(o, "freq", IdxSeq({j \in 1..NFreq(o) : Freqs(o)[j].spw \in keep}))
  IN [t EXCEPT !.meta.spws = SelectSeq(@, LAMBDA s : s \in keep)]
FlexPols(o) == {Freqs(o)[j].fp : j \in 1..NFreq(o)}
\* one polarization per window, spelled out: what was not observed is flagged
NotSeen == <<"?">>
Expand(o) ==
  LET ps == SetToSortSeq(FlexPols(o), LAMBDA x, y : Abs(x) < Abs(y))
      np == Len(ps)
      nf == NFreq(o)
  IN [o EXCEPT !.axes.pol = [k \in 1..np |-> [p |-> ps[k]]],
               !.axes.freq = [j \in 1..nf |-> [Freqs(o)[j] EXCEPT !.fp = 0]],
               !.meta.flexpol = FALSE,
               !.cells = [q \in 1..(NBlt(o) * nf * np) |->
                  LET k == ((q - 1) % np) + 1
                      ij == ((q - 1) \div np) + 1
                      j == ((ij - 1) % nf) + 1
                  IN IF Freqs(o)[j].fp = ps[k] THEN o.cells[ij] ELSE <<0, 0, 1, -1>>]]
\* what is in a file, read with the given options
MsContent(e, a) ==
  LET b0 == IF a.col = "DATA" THEN e.obj ELSE e.cols[a.col]
      b1 == IF a.nosingle THEN DropSingles(b0) ELSE b0
      b2 == IF b1.meta.flexpol /\ (~a.flexok \/ Cardinality(FlexPols(b1)) = 1 \/ Len(b1.meta.spws) = 1) THEN Expand(b1) ELSE b1
      b3 == Take(b2, "pol", PolsBy(b2, a.porder))
  IN IF a.weights THEN b3 ELSE [b3 EXCEPT !.cells = [q \in 1..Len(@) |-> <<@[q][1], @[q][2], @[q][3], 1000>>]]
MsReadFails(e, a) ==
  \/ a.col # "DATA" /\ a.col \notin DOMAIN e.cols
  \/ a.nosingle /\ \A s \in Range1(e.obj.meta.spws) : SpwSize(e.obj, s) = 1
\* weights of what was not observed are free
FreeWeights(w, p) == IF Len(w.cells) # Len(p.cells) THEN w
  ELSE [w EXCEPT !.cells = [q \in 1..Len(@) |-> IF @[q][4] = -1 THEN [@[q] EXCEPT ![4] = p.cells[q][4]] ELSE @[q]]]
\* rows in any order, phase centers under their own ids
MsDiff(want, post) ==
  LET n == NBlt(want)
      idx == [k \in 1..NBlt(post) |-> {i \in 1..n : RowMatch(Blts(want)[i], Blts(post)[k])}]
  IN IF n # NBlt(post) \/ \E k \in 1..n : Cardinality(idx[k]) # 1 \/ \E m \in 1..n : m # k /\ idx[m] = idx[k] THEN {"blt-labels"}
     ELSE LET w == Take(want, "blt", [k \in 1..n |-> CHOOSE i \in idx[k] : TRUE])
          IN CloseDiff([FreeWeights(w, post) EXCEPT !.cat = <<>>, !.meta.order = post.meta.order], [post EXCEPT !.cat = <<>>])
             \cup Clause(\A c \in Range1(post.cat) : \E d \in Range1(want.cat) : CloseCat(d, c) /\ NearSeq(d.pm, c.pm, 1), "catalog")
             \cup Clause(\A b \in Range1(Blts(post)) : \E c \in Range1(post.cat) : c.id = b.pcid /\ c.name = b.pc, "catalog")
MsReadClauses(e, a, out, post) ==
  IF MsReadFails(e, a) THEN Clause(out = "error", "bad-read-accepted")
  ELSE LET f == MsContent(e, a) IN
    IF SelectFails(f, a) THEN Clause(out = "error" \/ MayFail(f, a), "bad-selection-accepted")
    ELSE IF out = "error" THEN {"valid-read-refused"}
    ELSE WellFormedClauses(post) \cup MsDiff(SelectPost(f, a), post)
=============================================================================
