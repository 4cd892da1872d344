------------------------------ MODULE UVDRed ------------------------------
(* Redundant baselines: which baselines measure the same vector, keeping or averaging one baseline per
   redundant group, and copying the groups' data back to all their baselines.
   args.enu: antenna number -> ENU position (mm); args.tol: tolerance (mm).  The arrays are such that two baseline
   vectors are either well within the tolerance of one another or well apart. *)
EXTENDS UVDAvg

VecOf(a, p) == LET x == a.enu[ToString(p[1])] y == a.enu[ToString(p[2])] IN [k \in 1..3 |-> y[k] - x[k]]
NegV(v) == [k \in 1..3 |-> 0 - v[k]]
SameVec(a, v, w) == \A k \in 1..3 : Abs(v[k] - w[k]) <= a.tol
OppVec(a, v, w) == SameVec(a, v, NegV(w))
DataPairs(o) == {<<Blts(o)[i].a1, Blts(o)[i].a2>> : i \in 1..NBlt(o)}
NegU(v, tol) == LET neg(k) == v[k] < 0 - tol
                    zero(k) == Abs(v[k]) <= tol
                IN neg(1) \/ (zero(1) /\ neg(2)) \/ (zero(1) /\ zero(2) /\ neg(3))
PairsOf(grps) == UNION {Range1(grps[g]) : g \in 1..Len(grps)}
Total(grps) == FoldLeft(LAMBDA acc, g : acc + Len(g), 0, grps)
\* the groups are exactly the classes of the relation Rel on the pairs P
PartitionClauses(grps, P, Rel(_, _)) ==
     Clause(PairsOf(grps) = P /\ Total(grps) = Cardinality(P), "groups-not-a-partition")
\cup IF PairsOf(grps) # P THEN {} ELSE
     Clause(\A g \in 1..Len(grps) : \A i, j \in 1..Len(grps[g]) : Rel(grps[g][i], grps[g][j]), "group-of-different-baselines")
\cup Clause(\A g, h \in 1..Len(grps) : g = h \/ ~Rel(grps[g][1], grps[h][1]), "redundant-baselines-in-two-groups")
LenClauses(a, res) ==
  Clause(/\ Len(res.lens) = Len(res.groups) /\ Len(res.vecs) = Len(res.groups)
         /\ \A g \in 1..Len(res.groups) :
              LET v == VecOf(a, res.groups[g][1])
                  d == (v[1] * v[1]) + (v[2] * v[2]) + (v[3] * v[3])
              IN Abs((res.lens[g] * res.lens[g]) - d) <= (res.lens[g] * 2 * a.jit) + (a.jit * a.jit), "group-length")

\* the antenna positions decide the vectors unless the uvws of one time can be used
Drift(o) == \A i \in 1..NBlt(o) : TypeOf(o, i) = "unprojected"

RedClauses(o, a, out, res, p) ==
  IF out = "error" THEN {"redundancies-refused"}
  ELSE IF a.antpos THEN
    LET ants == {o.tel.ants[k].num : k \in 1..Len(o.tel.ants)}
        rel(x, y) == SameVec(a, VecOf(a, x), VecOf(a, y))
        P == PairsOf(res.groups)
        U == {S \in {{x, y} : x, y \in ants} : a.autos \/ Cardinality(S) = 2}
    IN Clause({{x[1], x[2]} : x \in P} = U /\ Cardinality(P) = Cardinality(U), "antenna-pairs-missing-or-twice")
       \cup Clause(\A x \in P : ~NegU(VecOf(a, x), a.tol), "not-u-positive")
       \cup PartitionClauses(res.groups, P, rel)
       \cup LenClauses(a, res)
       \cup Clause(\A g \in 1..Len(res.groups) : NearSeq(res.vecs[g], VecOf(a, res.groups[g][1]), a.jit), "group-vector")
       \cup Clause(res.conj = <<>>, "conjugates-given")
       \cup IF a.cbl /\ ~(\A i \in 1..NBlt(o) : ~NegU(VecOf(a, <<Blts(o)[i].a1, Blts(o)[i].a2>>), a.tol))
            THEN Diff(ConjPost(o, {i \in 1..NBlt(o) : NegU(VecOf(a, <<Blts(o)[i].a1, Blts(o)[i].a2>>), a.tol)}), p, {"order"})
            ELSE Diff(o, p, {"order"})
  ELSE
    LET P == DataPairs(o)
        rel(x, y) == IF SameVec(a, VecOf(a, x), VecOf(a, y)) THEN TRUE ELSE a.conj /\ OppVec(a, VecOf(a, x), VecOf(a, y))
        C == Range1(res.conj)
        zero(x) == SameVec(a, VecOf(a, x), <<0, 0, 0>>)
    IN PartitionClauses(res.groups, P, rel)
       \cup LenClauses(a, res)
       \cup Clause(C \subseteq P /\ (a.conj \/ C = {}), "conjugates-not-in-data")
       \cup (IF a.conj /\ PairsOf(res.groups) = P
             THEN Clause(\A g \in 1..Len(res.groups) : \A i, j \in 1..Len(res.groups[g]) :
                           LET x == res.groups[g][i] y == res.groups[g][j] IN
                           zero(x) \/ ((x \in C) = (y \in C)) = SameVec(a, VecOf(a, x), VecOf(a, y)), "conjugates-inconsistent")
             ELSE {})
       \cup (IF Drift(o) /\ PairsOf(res.groups) = P
             THEN Clause(a.conj => C = {x \in P : NegU(VecOf(a, x), a.tol)}, "conjugates-not-u-positive")
                  \cup Clause(\A g \in 1..Len(res.groups) : LET v == VecOf(a, res.groups[g][1]) IN
                         NearSeq(res.vecs[g], IF res.groups[g][1] \in C THEN NegV(v) ELSE v, a.jit), "group-vector")
             ELSE {})
       \cup Diff(o, p, {"rect", "tfast"}) \cup WellFormedClauses(p)

-----------------------------------------------------------------------------
(* one baseline per redundant group *)
RowIx(o, x) == {i \in 1..NBlt(o) : Blts(o)[i].a1 = x[1] /\ Blts(o)[i].a2 = x[2]}
\* a baseline as it appears in a group: 1 same direction as r, -1 opposite, 0 not redundant
Dir(a, r, x) == IF SameVec(a, VecOf(a, r), VecOf(a, x)) THEN 1 ELSE IF OppVec(a, VecOf(a, r), VecOf(a, x)) THEN -1 ELSE 0
Classes(o, a) == {{y \in DataPairs(o) : Dir(a, x, y) # 0} : x \in DataPairs(o)}
NeedsConj(o, a) == \E C \in Classes(o, a) : \E x, y \in C : Dir(a, x, y) = -1
CompressClauses(o, a, out, p) ==
  LET avg == a.method = "average"
      blind == avg /\ o.cells # <<>> /\ NeedsConj(o, a) /\ ~HasConjPols(o)
  IN
  IF a.method \notin {"average", "select"} THEN Clause(out = "error", "unknown-method-accepted") \cup Clause(p = o, "failed-call-changed-object")
  ELSE IF blind THEN Clause(out = "error", "averaged-without-conjugate-pols") \cup Clause(out # "error" \/ Diff(o, p, {"rect", "tfast"}) = {}, "failed-call-changed-object")
  ELSE IF out = "error" THEN {"compression-refused"}
  ELSE
    LET reps == DataPairs(p) IN
    IF ~(reps \subseteq DataPairs(o)) \/ \E C \in Classes(o, a) : Cardinality(C \cap reps) # 1 THEN {"not-one-baseline-per-group"}
    ELSE LET want == SelectPost(o, [bls |-> SetToSeq(reps), keep |-> a.keep]) IN
      WellFormedClauses(p) \cup
      IF ~avg \/ o.cells = <<>> THEN Diff(want, p, {})
      ELSE IF Len(p.cells) # Len(want.cells) THEN {"wf-cells"}
      ELSE Diff([want EXCEPT !.cells = p.cells], p, {})
        \cup Clause(\A r \in 1..NBlt(p) :
               LET x == <<Blts(p)[r].a1, Blts(p)[r].a2>>
                   S == {i \in 1..NBlt(o) : Near(Blts(o)[i].t, Blts(p)[r].t, TTol) /\ Dir(a, x, <<Blts(o)[i].a1, Blts(o)[i].a2>>) # 0}
               IN \A j \in 1..NFreq(p), k \in 1..NPol(p) :
                    LET c(i) == IF Dir(a, x, <<Blts(o)[i].a1, Blts(o)[i].a2>>) = 1 THEN Cell(o, o.cells, i, j, k)
                                ELSE ConjCell(Cell(o, o.cells, i, j, PolIx(o, PolConj(Pols(o)[k].p))))
                        oc == Cell(p, p.cells, r, j, k)
                        U == {i \in S : c(i)[3] = 0}
                        use == IF U = {} THEN S ELSE U
                        w(i) == c(i)[4] \div 1000
                        sw == SumOver(use, w)
                    IN /\ (oc[3] = 1) = (U = {})
                       /\ Near(oc[4], 1000 * sw, 2)
                       /\ sw = 0 \/ /\ Near(oc[1] * sw, SumOver(use, LAMBDA i : w(i) * c(i)[1]), 2 * sw)
                                    /\ Near(oc[2] * sw, SumOver(use, LAMBDA i : w(i) * c(i)[2]), 2 * sw), "average-of-group")

-----------------------------------------------------------------------------
(* data copied to every baseline of each group *)
RowVal(o, i) == [t |-> Blts(o)[i].t, lst |-> Blts(o)[i].lst, it |-> Blts(o)[i].it, pc |-> Blts(o)[i].pc, pcr |-> Blts(o)[i].pcr,
                 app |-> Blts(o)[i].app, scan |-> Blts(o)[i].scan,
                 cells |-> IF o.cells = <<>> THEN <<>> ELSE SubSeq(o.cells, ((i - 1) * NFreq(o) * NPol(o)) + 1, i * NFreq(o) * NPol(o))]
Rows(o, x) == {RowVal(o, i) : i \in RowIx(o, x)}
InflateClauses(o, a, out, p) ==
  LET S == {i \in 1..NBlt(o) : NegU(VecOf(a, <<Blts(o)[i].a1, Blts(o)[i].a2>>), a.tol)} IN
  IF S # {} /\ ~HasConjPols(o) THEN Clause(out = "error", "conjugated-without-conjugate-pols") \cup Clause(out # "error" \/ p = o, "failed-call-changed-object")
  ELSE IF out = "error" THEN (IF ~HasConjPols(o) THEN {} ELSE {"inflation-refused"})
  ELSE
    LET q == ConjPost(o, S)
        ants == {o.tel.ants[k].num : k \in 1..Len(o.tel.ants)}
        have == DataPairs(q)
        want == {x \in ants \X ants : /\ \E y \in have : SameVec(a, VecOf(a, x), VecOf(a, y))
                                       /\ ~NegU(VecOf(a, x), a.tol)}
        zero(x) == SameVec(a, VecOf(a, x), <<0, 0, 0>>)
    IN WellFormedClauses(p)
       \cup Clause(DataPairs(p) = {x \in want : ~zero(x) \/ x[1] = x[2]}, "inflated-baselines")
       \cup Clause(\A x \in DataPairs(p) : \E y \in have : SameVec(a, VecOf(a, x), VecOf(a, y)) /\ Rows(p, x) = Rows(q, y)
                                                            /\ Cardinality(RowIx(p, x)) = Cardinality(RowIx(q, y)), "inflated-rows")
       \cup Clause(\A i \in 1..NBlt(p) : \E m \in 1..NBlt(q) : Blts(q)[m].t = Blts(p)[i].t /\ Blts(q)[m].pc = Blts(p)[i].pc
                      /\ NearSeq(Blts(q)[m].uvw, Blts(p)[i].uvw, 2 * a.jit)
                      /\ SameVec(a, VecOf(a, <<Blts(p)[i].a1, Blts(p)[i].a2>>), VecOf(a, <<Blts(q)[m].a1, Blts(q)[m].a2>>)), "inflated-uvws")
       \cup Diff([q EXCEPT !.axes.blt = p.axes.blt, !.cells = p.cells], p, {"order"})
       \cup Clause(p.meta.order = a.order, "blt-order-not-as-asked")

\* many baselines at once: cls[i] names the vector of baseline i; the groups list baselines
LargeClauses(a, out, res) ==
  IF out = "error" THEN {"redundancies-refused"}
  ELSE LET n == Len(a.cls)
           tot == FoldLeft(LAMBDA acc, g : acc + Len(g), 0, res)
       IN Clause(tot = n /\ UNION {Range1(res[g]) : g \in 1..Len(res)} = 1..n, "groups-not-a-partition")
          \cup Clause(\A g \in 1..Len(res) : \A i \in 1..Len(res[g]) : a.cls[res[g][i]] = a.cls[res[g][1]], "group-of-different-baselines")
          \cup Clause(Cardinality({a.cls[res[g][1]] : g \in 1..Len(res)}) = Len(res), "redundant-baselines-in-two-groups")
=============================================================================
