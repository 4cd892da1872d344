----------------------------- MODULE UVDAccess -----------------------------
(* Reading and writing parts of an object by baseline / polarization key.   *)
(* A key is [pair |-> <<a1,a2>>, pol |-> p]; either field may be absent.    *)
EXTENDS UVD

RowsOf(o, a, b) == IdxSeq({i \in 1..NBlt(o) : Blts(o)[i].a1 = a /\ Blts(o)[i].a2 = b})
AllRows(o) == [i \in 1..NBlt(o) |-> i]
PolPos(o, p) == IF \E k \in 1..NPol(o) : Pols(o)[k].p = p THEN CHOOSE k \in 1..NPol(o) : Pols(o)[k].p = p ELSE 0
AllPolIdx(o) == [k \in 1..NPol(o) |-> k]
ConjPolIdx(o) == [k \in 1..NPol(o) |-> PolIx(o, PolConj(Pols(o)[k].p))]

\* rows found as asked, and rows found the other way round (to be conjugated), each with its pols
Found(o, key) ==
  IF ~Has(key, "pair")
  THEN LET k == PolPos(o, key.pol) IN
       [d |-> IF k = 0 THEN <<>> ELSE AllRows(o), dp |-> IF k = 0 THEN <<>> ELSE <<k>>, c |-> <<>>, cp |-> <<>>]
  ELSE LET a == key.pair[1]
           b == key.pair[2]
           rd == RowsOf(o, a, b)
           rc == IF a = b THEN <<>> ELSE RowsOf(o, b, a)
       IN IF Has(key, "pol")
          THEN LET kd == PolPos(o, key.pol)
                   kc == PolPos(o, PolConj(key.pol))
               IN [d |-> IF kd = 0 THEN <<>> ELSE rd, dp |-> <<kd>>, c |-> IF kc = 0 THEN <<>> ELSE rc, cp |-> <<kc>>]
          ELSE [d |-> rd, dp |-> AllPolIdx(o),
                c |-> IF HasConjPols(o) THEN rc ELSE <<>>, cp |-> IF HasConjPols(o) THEN ConjPolIdx(o) ELSE <<>>]
Missing(o, key) == LET f == Found(o, key) IN f.d = <<>> /\ f.c = <<>>

\* <<row, pol index, conjugated?>> of every entry of the answer, then the cells in row/freq/pol order
AnswerRows(o, key) ==
  LET f == Found(o, key) IN [i \in 1..Len(f.d) |-> <<f.d[i], FALSE>>] \o [i \in 1..Len(f.c) |-> <<f.c[i], TRUE>>]
AnswerPols(o, key) == LET f == Found(o, key) IN IF f.d # <<>> THEN Len(f.dp) ELSE Len(f.cp)
CellVal(kind, c, conj) == CASE kind = "data" -> <<c[1], IF conj THEN 0 - c[2] ELSE c[2]>>
                            [] kind = "flags" -> <<c[3]>>
                            [] kind = "nsamples" -> <<c[4]>>
Answer(o, key, kind) ==
  LET f == Found(o, key)
      rows == AnswerRows(o, key)
      np == AnswerPols(o, key)
      nf == NFreq(o)
  IN [q \in 1..(Len(rows) * nf * np) |->
       LET i == ((q - 1) \div (nf * np)) + 1
           j == (((q - 1) \div np) % nf) + 1
           k == ((q - 1) % np) + 1
           pp == IF rows[i][2] THEN f.cp[k] ELSE f.dp[k]
       IN CellVal(kind, Cell3(o, rows[i][1], j, pp), rows[i][2])]
Squeezed(sh, how) == CASE how = "none" -> sh
                       [] how = "default" -> IF sh[3] = 1 THEN SubSeq(sh, 1, 2) ELSE sh
                       [] how = "full" -> SelectSeq(sh, LAMBDA n : n # 1)

GetClauses(o, args, out, res) ==
  IF Missing(o, args.key) THEN Clause(out = "error", "missing-key-answered")
  ELSE IF out = "error" THEN {"present-key-refused"}
  ELSE CASE args.kind \in {"data", "flags", "nsamples"} ->
              Clause(res.vals = Answer(o, args.key, args.kind), "returned-values")
              \cup Clause(res.shape = Squeezed(<<Len(AnswerRows(o, args.key)), NFreq(o), AnswerPols(o, args.key)>>, args.squeeze), "returned-shape")
         [] args.kind = "times" -> Clause(res.vals = [i \in 1..Len(AnswerRows(o, args.key)) |-> Blts(o)[AnswerRows(o, args.key)[i][1]].t], "returned-times")
         [] args.kind = "lsts" -> Clause(res.vals = [i \in 1..Len(AnswerRows(o, args.key)) |-> Blts(o)[AnswerRows(o, args.key)[i][1]].lst], "returned-lsts")

\* indices of an antenna pair along the blt axis (0-based), unordered: also the reversed pair
IndexClauses(o, args, out, res) ==
  LET d == RowsOf(o, args.pair[1], args.pair[2])
      c == IF args.ordered \/ args.pair[1] = args.pair[2] THEN <<>> ELSE RowsOf(o, args.pair[2], args.pair[1])
      w == d \o c
  IN IF out = "error" THEN {"index-refused"}
     ELSE Clause(res.vals = [k \in 1..Len(w) |-> w[k] - 1], "pair-indices")

ListClauses(o, args, out, res) ==
  LET prs == {<<Blts(o)[i].a1, Blts(o)[i].a2>> : i \in 1..NBlt(o)} IN
  IF out = "error" THEN {"listing-refused"} ELSE
  CASE args.what = "ants" -> Clause(Range1(res.vals) = AntsInData(o) /\ DistinctSeq(res.vals), "listed-antennas")
    [] args.what = "bls" -> Clause(Range1(res.vals) = {Blts(o)[i].bl : i \in 1..NBlt(o)} /\ DistinctSeq(res.vals), "listed-baselines")
    [] args.what = "antpairs" -> Clause(Range1(res.vals) = prs /\ DistinctSeq(res.vals), "listed-antpairs")
    [] args.what = "antpairpols" -> Clause(Range1(res.vals) = {<<x[1], x[2], Pols(o)[k].p>> : x \in prs, k \in 1..NPol(o)} /\ DistinctSeq(res.vals), "listed-antpairpols")
    [] args.what = "pols" -> Clause(res.vals = [k \in 1..NPol(o) |-> Pols(o)[k].p], "listed-pols")
    [] args.what = "iter" ->
         Clause(Range1([k \in 1..Len(res.items) |-> res.items[k].k]) = {<<x[1], x[2], Pols(o)[k].p>> : x \in prs, k \in 1..NPol(o)}
                /\ Len(res.items) = Cardinality(prs) * NPol(o), "iterated-keys")
         \cup Clause(\A n \in 1..Len(res.items) : LET it == res.items[n] IN
                it.vals = Answer(o, [pair |-> <<it.k[1], it.k[2]>>, pol |-> it.k[3]], "data"), "iterated-values")
    [] args.what = "enu" -> Clause(Range1(res.vals) = AntsInData(o)
         /\ res.vals = SelectSeq([k \in 1..Len(o.tel.ants) |-> o.tel.ants[k].num], LAMBDA a : a \in AntsInData(o)), "enu-antennas")
         \cup Clause(\A k \in 1..Len(res.vals) : \A c \in 1..3 : Near(res.pos[k][c], args.antenu[ToString(res.vals[k])][c], 1), "enu-positions")

\* writing: only keys found as asked, only with the right shape
SetCell(c, kind, v) == CASE kind = "data" -> <<v[1], v[2], c[3], c[4]>>
                         [] kind = "flags" -> <<c[1], c[2], v[1], c[4]>>
                         [] kind = "nsamples" -> <<c[1], c[2], c[3], v[1]>>
SetClauses(o, args, out, post) ==
  LET key == args.key
      f == Found(o, key)
      shape == <<Len(f.d), NFreq(o), Len(f.dp)>>
      bad == f.d = <<>> \/ f.c # <<>> \/ args.shape # shape
      nf == NFreq(o)
      np == NPol(o)
      want == [o EXCEPT !.cells = [q \in 1..Len(o.cells) |->
                 LET i == ((q - 1) \div (nf * np)) + 1
                     j == (((q - 1) \div np) % nf) + 1
                     k == ((q - 1) % np) + 1
                     pi == PosIn(f.d, i)
                     pk == PosIn(f.dp, k)
                 IN IF pi # 0 /\ pk # 0 THEN SetCell(o.cells[q], args.kind, args.vals[((pi - 1) * nf + (j - 1)) * Len(f.dp) + pk])
                    ELSE o.cells[q]]]
  IN IF bad THEN Clause(out = "error", "bad-write-accepted") \cup Clause(post = o, "failed-call-changed-object")
     ELSE IF out = "error" THEN {"valid-write-refused"}
     ELSE Clause(post = want, "written-values")
=============================================================================
