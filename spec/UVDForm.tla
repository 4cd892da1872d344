------------------------------- MODULE UVDForm ------------------------------
(***************************************************************************)
(* What each file format holds.                                            *)
(*   uvh5    the object itself                                             *)
(*   uvfits  polarizations in order of |p|, spectral windows renumbered in *)
(*           order of appearance, phase center ids made nonzero, flags     *)
(*           merged with zero weights, no scans and equalizer coefficients *)
(***************************************************************************)
EXTENDS UVDIO

Identity(fmt) == fmt = "uvh5"
AllCats(o, ty) == \A i \in 1..NBlt(o) : \E k \in 1..Len(o.cat) : o.cat[k].id = Blts(o)[i].pcid /\ o.cat[k].type = ty
SpwSeq(o) == LET first(s) == CHOOSE j \in 1..NFreq(o) : Freqs(o)[j].spw = s /\ \A m \in 1..(j - 1) : Freqs(o)[m].spw # s
             IN SetToSortSeq({Freqs(o)[j].spw : j \in 1..NFreq(o)}, LAMBDA x, y : first(x) < first(y))
SpwPos(o) == LET s == SpwSeq(o) IN [x \in Range1(s) |-> (CHOOSE k \in 1..Len(s) : s[k] = x) - 1]
SpwSize(o, s) == Cardinality({j \in 1..NFreq(o) : Freqs(o)[j].spw = s})
SpwContiguous(o) == \A i, j \in 1..NFreq(o) : i < j /\ Freqs(o)[i].spw = Freqs(o)[j].spw => \A m \in i..j : Freqs(o)[m].spw = Freqs(o)[i].spw
\* channels of a window evenly spaced, by their common width
EvenWindow(o, s) ==
  LET idx == SpwMembers(o, s)
  IN /\ \A k \in 1..Len(idx) : Freqs(o)[idx[k]].w = Freqs(o)[idx[1]].w
     /\ \A k \in 1..(Len(idx) - 1) : LET d == Freqs(o)[idx[k + 1]].f - Freqs(o)[idx[k]].f
                                     IN /\ Near(Abs(d), Freqs(o)[idx[1]].w, 1)
                                        /\ (d > 0) = (Freqs(o)[idx[2]].f > Freqs(o)[idx[1]].f)
PolsByAbs(o) == SetToSortSeq(1..NPol(o), LAMBDA x, y : Abs(Pols(o)[x].p) < Abs(Pols(o)[y].p))
EvenPols(o) == LET q == PolsByAbs(o) IN \A k \in 1..(NPol(o) - 2) : Pols(o)[q[k + 2]].p - Pols(o)[q[k + 1]].p = Pols(o)[q[k + 1]].p - Pols(o)[q[k]].p

RenumSpw(o) ==
  LET sp == SpwPos(o)
  IN [o EXCEPT !.axes.freq = [j \in 1..NFreq(o) |-> [Freqs(o)[j] EXCEPT !.spw = sp[Freqs(o)[j].spw]]],
               !.meta.spws = [k \in 1..Cardinality(DOMAIN sp) |-> k - 1]]
NoExtras(o) ==
  [o EXCEPT !.axes.freq = [j \in 1..NFreq(o) |-> [Freqs(o)[j] EXCEPT !.eq = <<>>]],
            !.axes.blt = [i \in 1..NBlt(o) |-> [Blts(o)[i] EXCEPT !.scan = -1]],
            !.meta.eqconv = "None", !.meta.rect = "N", !.meta.tfast = "N"]
ShiftPC(o, n) ==
  [o EXCEPT !.axes.blt = [i \in 1..NBlt(o) |-> [Blts(o)[i] EXCEPT !.pcid = @ + n]],
            !.cat = [k \in 1..Len(o.cat) |-> [o.cat[k] EXCEPT !.id = @ + n]]]
FlagZeroWeight(o) == [o EXCEPT !.cells = [q \in 1..Len(o.cells) |-> IF o.cells[q][4] = 0 THEN <<o.cells[q][1], o.cells[q][2], 1, 0>> ELSE o.cells[q]]]
ShiftAnts(o, n) ==
  [o EXCEPT !.axes.blt = [i \in 1..NBlt(o) |-> LET b == Blts(o)[i] IN [b EXCEPT !.a1 = @ + n, !.a2 = @ + n, !.bl = 65536 + 8192 * (b.a1 + n) + b.a2 + n]],
            !.tel.ants = [k \in 1..Len(o.tel.ants) |-> [o.tel.ants[k] EXCEPT !.num = @ + n]]]
HasZero(o) == \E k \in 1..Len(o.tel.ants) : o.tel.ants[k].num = 0

AnyAngle == 99999999
StoredUvfits(o, a) ==
  LET sid == SelectSeq(o.cat, LAMBDA c : c.type = "sidereal")
      \* one frame per file
      mixed == \E m, k \in 1..Len(sid) : sid[m].frame # sid[k].frame
      o0 == [o EXCEPT !.axes.blt = IF mixed THEN [i \in 1..NBlt(o) |-> [Blts(o)[i] EXCEPT !.app = <<@[1], @[2], AnyAngle>>]] ELSE @,
                      !.cat = [k \in 1..Len(sid) |-> IF mixed THEN [sid[k] EXCEPT !.frame = "any"] ELSE sid[k]]]
      o1 == Take(o0, "pol", PolsByAbs(o))
      o2 == RenumSpw(o1)
      o3 == ShiftPC(o2, IF \E k \in 1..Len(o0.cat) : o0.cat[k].id = 0 THEN 1 ELSE 0)
      o4 == FlagZeroWeight(o3)
      o5 == NoExtras(o4)
  IN ShiftAnts(o5, IF a.mir /\ HasZero(o) THEN 1 ELSE 0)

\* Miriad: baselines with ant1 <= ant2; only the phase centers in use; one antenna diameter
Ant12 == [conv |-> "ant1<ant2"]
MirSet(o) == {i \in 1..NBlt(o) : Blts(o)[i].a1 > Blts(o)[i].a2}
UsedCats(o) == [o EXCEPT !.cat = SelectSeq(o.cat, LAMBDA c : \E i \in 1..NBlt(o) : Blts(o)[i].pcid = c.id)]
NoDiam(o) == IF \A k \in 1..Len(o.tel.ants) : o.tel.ants[k].diam = o.tel.ants[1].diam THEN o
             ELSE [o EXCEPT !.tel.ants = [k \in 1..Len(@) |-> [@[k] EXCEPT !.diam = -1]]]
StoredMiriad(o, a) == NoDiam(NoExtras(UsedCats(RenumSpw(ConjPost(o, MirSet(o))))))

Stored(fmt, o, a) ==
  LET s == CASE Identity(fmt) -> o
             [] fmt = "uvfits" -> StoredUvfits(o, a)
             [] fmt = "miriad" -> StoredMiriad(o, a)
  IN [s EXCEPT !.shape = <<>>]

UvfitsFails(o, a) ==
  \/ ~AllCats(o, "sidereal") /\ ~a.phase
  \/ \E s \in Range1(o.meta.spws) : SpwSize(o, s) # SpwSize(o, o.meta.spws[1]) \/ ~EvenWindow(o, s)
  \/ ~SpwContiguous(o)
  \/ ~EvenPols(o)
MiriadFails(o, a) ==
  \/ \E s \in Range1(o.meta.spws) : ~EvenWindow(o, s)
  \/ ~SpwContiguous(o)
  \/ MirSet(o) # {} /\ ~HasConjPols(o)
  \/ \E k \in DOMAIN o.kw : o.kw[k] = "None"
WriteFails(fmt, o, a) ==
  \/ o.meta.only
  \/ Identity(fmt) /\ a.bad
  \/ fmt = "uvfits" /\ UvfitsFails(o, a)
  \/ fmt = "miriad" /\ MiriadFails(o, a)
WriteClauses(fmt, o, a, out, new) ==
  IF WriteFails(fmt, o, a) THEN Clause(out = "error", "unwritable-object-written")
  ELSE Clause(out = "ok", "valid-write-refused")
       \cup IF new = o \/ (fmt = "miriad" /\ new = [ConjPost(o, MirSet(o)) EXCEPT !.meta.order = new.meta.order, !.meta.rect = new.meta.rect, !.meta.tfast = new.meta.tfast, !.meta.Nbls = new.meta.Nbls]) THEN {}
            ELSE \* phased before writing, on request
                 Clause(fmt = "uvfits" /\ a.phase /\ ~AllCats(o, "sidereal"), "operand-mutated")
            \cup Clause(AllCats(new, "sidereal"), "not-phased")
            \cup Clause([i \in 1..NBlt(o) |-> <<Blts(o)[i].t, Blts(o)[i].a1, Blts(o)[i].a2, Blts(o)[i].it>>]
                        = [i \in 1..NBlt(new) |-> <<Blts(new)[i].t, Blts(new)[i].a1, Blts(new)[i].a2, Blts(new)[i].it>>]
                        /\ Freqs(o) = Freqs(new) /\ Pols(o) = Pols(new), "operand-mutated")

\* closeness of what went through single precision, or was recomputed
CloseBlt(x, y) ==
  /\ Near(x.t, y.t, 1) /\ NearMod(x.lst, y.lst, 62831853, 3)
  /\ x.a1 = y.a1 /\ x.a2 = y.a2 /\ x.bl = y.bl /\ Near(x.it, y.it, 1) /\ NearSeq(x.uvw, y.uvw, 2)
  /\ x.pcid = y.pcid /\ x.pc = y.pc /\ x.scan = y.scan
  /\ NearMod(x.app[1], y.app[1], 6283185, 3) /\ Near(x.app[2], y.app[2], 3) /\ (x.app[3] = AnyAngle \/ NearMod(x.app[3], y.app[3], 6283185, 3))
CloseAnt(x, y) == x.num = y.num /\ x.name = y.name /\ NearSeq(x.pos, y.pos, 1) /\ Near(x.diam, y.diam, 1)
CloseCat(x, y) == /\ x.id = y.id /\ x.name = y.name /\ x.type = y.type /\ (x.frame = y.frame \/ x.frame = "any")
                  /\ NearSeq(x.lon, y.lon, 4) /\ NearSeq(x.lat, y.lat, 4)
AllClose(s, t, C(_, _)) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : C(s[i], t[i])
CloseDiff(want, post) ==
     Clause(AllClose(want.axes.blt, post.axes.blt, CloseBlt), "blt-labels")
\cup Clause(post.axes.freq = want.axes.freq, "freq-labels")
\cup Clause(post.axes.pol = want.axes.pol, "pol-labels")
\cup Clause(post.cells = want.cells, "cells")
\cup Clause(post.meta.spws = want.meta.spws, "spw-array")
\cup Clause(SameMetaExcept(want, post, Derived \cup {"xkw", "opt"}), "scalar-metadata")
\cup Clause(AllClose(post.tel.ants, want.tel.ants, CloseAnt) /\ post.tel.name = want.tel.name /\ NearSeq(post.tel.loc, want.tel.loc, 1)
            /\ post.tel.xo = want.tel.xo /\ post.tel.inst = want.tel.inst, "telescope")
\cup Clause(AllClose(want.cat, post.cat, CloseCat), "catalog")
\cup Clause(\A k \in DOMAIN want.kw : k \in DOMAIN post.kw /\ post.kw[k] = want.kw[k], "keywords")

\* formats that sort the rows and renumber the phase centers
NoIds(o) == [o EXCEPT !.axes.blt = NormBlts(o), !.cat = [k \in 1..Len(@) |-> [@[k] EXCEPT !.id = 0]]]
RowMatch(x, y) == x.a1 = y.a1 /\ x.a2 = y.a2 /\ Near(x.t, y.t, 1)
PermDiff(want, post) ==
  LET n == NBlt(want)
      idx == [k \in 1..NBlt(post) |-> {i \in 1..n : RowMatch(Blts(want)[i], Blts(post)[k])}]
  IN IF n # NBlt(post) \/ \E k \in 1..n : Cardinality(idx[k]) # 1 \/ \E m \in 1..n : m # k /\ idx[m] = idx[k] THEN {"blt-labels"}
     ELSE LET w == NoIds(Take(want, "blt", [k \in 1..n |-> CHOOSE i \in idx[k] : TRUE]))
              p == NoIds(post)
          IN CloseDiff([w EXCEPT !.cat = <<>>, !.meta.order = post.meta.order], [p EXCEPT !.cat = <<>>])
             \cup Clause(want.meta.order = <<>> \/ post.meta.order = want.meta.order, "blt-order")
             \cup Clause(\A c \in Range1(p.cat) : \E d \in Range1(w.cat) : CloseCat(d, c), "catalog")
             \cup Clause(\A b \in Range1(Blts(p)) : \E c \in Range1(p.cat) : c.name = b.pc, "catalog")

\* wf-Ntimes and wf-blt-order are judged on values that may have been rounded
\* sidereal times are compared modulo 2 pi, so that they lie in one turn is said here
FormWf(post) == WellFormedClauses(post) \cup Clause(\A b \in Range1(Blts(post)) : b.lst >= -3 /\ b.lst <= 62831856, "lst-range")
FormReadClauses(fmt, f, a, out, post) ==
  IF Identity(fmt) THEN ReadClauses(f, a, out, post)
  ELSE IF a.rd /\ SelectFails(f, a) THEN Clause(out = "error" \/ MayFail(f, a), "bad-selection-accepted")
  ELSE IF out = "error" THEN Clause(~a.rd /\ Has(a, "ants") /\ Has(a, "antnames"), "valid-read-refused")
  ELSE FormWf(post) \cup (IF fmt = "miriad" THEN PermDiff(ReadWant(f, a), post) ELSE CloseDiff(ReadWant(f, a), post))
=============================================================================
