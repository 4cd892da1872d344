------------------------------- MODULE Cube -------------------------------
(***************************************************************************)
(* Labelled data cubes.  A cube object o has                               *)
(*   o.order  sequence of axis names, slowest varying first                *)
(*   o.axes   [axis name |-> sequence of labels (records)]                 *)
(*   o.cells  the cells in row major order, or <<>> for a metadata-only    *)
(*            object                                                       *)
(* UVData, UVCal, UVFlag and UVBeam objects are all projected to cubes, so *)
(* the indexing semantics of select / concat / reorder is stated once.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Has(a, f) == f \in DOMAIN a
Range1(s) == {s[i] : i \in 1..Len(s)}
IdxSeq(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
PickIdx(s, idx) == [k \in 1..Len(idx) |-> s[idx[k]]]

RECURSIVE ProdFrom(_, _)
ProdFrom(dims, k) == IF k > Len(dims) THEN 1 ELSE dims[k] * ProdFrom(dims, k + 1)

Dims(o) == [k \in 1..Len(o.order) |-> Len(o.axes[o.order[k]])]
AxisPos(o, ax) == CHOOSE k \in 1..Len(o.order) : o.order[k] = ax
NCells(o) == ProdFrom(Dims(o), 1)

\* cells of o restricted/permuted along axis ax to the (1-based) indices idx
TakeCells(o, ax, idx) ==
  LET d == Dims(o)
      k == AxisPos(o, ax)
      n == d[k]
      m == Len(idx)
      inner == ProdFrom(d, k + 1)
      total == (ProdFrom(d, 1) \div n) * m
  IN IF o.cells = <<>> THEN <<>>
     ELSE [p1 \in 1..total |->
            LET p == p1 - 1
                r == p % inner
                q == p \div inner
            IN o.cells[((q \div m) * n + (idx[(q % m) + 1] - 1)) * inner + r + 1]]

\* o restricted/permuted along axis ax; only axes and cells are touched
Take(o, ax, idx) ==
  [o EXCEPT !.cells = TakeCells(o, ax, idx),
            !.axes[ax] = PickIdx(o.axes[ax], idx)]

\* concatenation of two cubes that agree on every other axis
ConcatCells(a, b, ax) ==
  LET da == Dims(a)
      db == Dims(b)
      k == AxisPos(a, ax)
      na == da[k]
      nb == db[k]
      m == na + nb
      inner == ProdFrom(da, k + 1)
      total == (ProdFrom(da, 1) \div na) * m
  IN IF a.cells = <<>> THEN <<>>
     ELSE [p1 \in 1..total |->
            LET p == p1 - 1
                r == p % inner
                q == p \div inner
                j == q % m
                ou == q \div m
            IN IF j < na THEN a.cells[(ou * na + j) * inner + r + 1]
                         ELSE b.cells[(ou * nb + (j - na)) * inner + r + 1]]

Concat(a, b, ax) ==
  [a EXCEPT !.cells = ConcatCells(a, b, ax),
            !.axes[ax] = a.axes[ax] \o b.axes[ax]]

\* flat index of the multi index mi (1-based, one entry per axis)
RECURSIVE FlatIx(_, _, _)
FlatIx(d, mi, k) == IF k = 0 THEN 0 ELSE FlatIx(d, mi, k - 1) * d[k] + (mi[k] - 1)
CellAt(o, mi) == o.cells[FlatIx(Dims(o), mi, Len(mi)) + 1]

\* is seq b a rearrangement of seq a (labels are distinct or not)
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in Range1(a) : Cardinality({i \in 1..Len(a) : a[i] = x})
                                       = Cardinality({i \in 1..Len(b) : b[i] = x})
\* for each position of b, a position of a with the same label (labels of a distinct)
PermOf(a, b) == [k \in 1..Len(b) |-> CHOOSE i \in 1..Len(a) : a[i] = b[k]]
DistinctSeq(s) == Cardinality(Range1(s)) = Len(s)

Clause(ok, name) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
NearMod(x, y, m, tol) == LET d == (x - y) % m IN d <= tol \/ d >= m - tol
NearSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)
=============================================================================
