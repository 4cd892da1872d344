------------------------------- MODULE UVDNew -------------------------------
(* Building a UVData object from its parts (UVData.new).                                *)
(*                                                                                      *)
(* The arguments a: times <<tick>>, lst (local sidereal time of each time, computed     *)
(* independently), pairs <<<<a1, a2>>>> (or none), outer / tfast "T" "F" "N", its       *)
(* (integration times in ms: <<>> not given, <<x>> one for all, one per time),          *)
(* freqs, widths, spwids, pols, cat, ids, data (the kind of data given), enu.           *)
EXTENDS UVD

Sorted(s, Le(_, _)) == SortSeq(s, LAMBDA x, y : Le(x, y) /\ x # y)
LeNum(x, y) == x <= y
LePair(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
\* SortSeq needs a strict order; duplicates are excluded where it is used
Unique(s) == Cardinality(Range1(s)) = Len(s)

AntOrder(tel) == [k \in 1..Len(tel.ants) |-> tel.ants[k].num]
AllPairsOf(nums) ==
  LET n == Len(nums)
      ij == SelectSeq([q \in 1..(n * n) |-> <<((q - 1) \div n) + 1, ((q - 1) % n) + 1>>], LAMBDA x : x[1] <= x[2])
  IN [q \in 1..Len(ij) |-> <<nums[ij[q][1]], nums[ij[q][2]]>>]

(* "outer" every time for every pair; "rows" one pair per time; "refuse" contradictory or undecidable *)
Layout(a) ==
  IF ~a.given THEN IF Unique(a.times) THEN "outer" ELSE "refuse"
  ELSE IF a.outer = "T" THEN IF Unique(a.times) /\ Unique(a.pairs) THEN "outer" ELSE "refuse"
  ELSE IF a.outer = "F" THEN IF Len(a.times) = Len(a.pairs) THEN "rows" ELSE "refuse"
  ELSE IF Len(a.times) # Len(a.pairs) THEN IF Unique(a.times) /\ Unique(a.pairs) THEN "outer" ELSE "refuse"
  ELSE IF Unique(a.times) /\ Unique(a.pairs) THEN "refuse" ELSE "rows"

(* The integration time of the k-th given time. *)
NextTime(a, t) == CHOOSE u \in Range1(a.times) : u > t /\ \A w \in Range1(a.times) : w > t => w >= u
PrevTime(a, t) == CHOOSE u \in Range1(a.times) : u < t /\ \A w \in Range1(a.times) : w < t => w <= u
InferredIt(a, t) ==
  IF Cardinality(Range1(a.times)) = 1 THEN 1000
  ELSE IF \E u \in Range1(a.times) : u > t THEN (NextTime(a, t) - t) \div 10
  ELSE (t - PrevTime(a, t)) \div 10
ItOf(a, k) == IF a.its = <<>> THEN InferredIt(a, a.times[k]) ELSE IF Len(a.its) = 1 THEN a.its[1] ELSE a.its[k]

(* The rows, each <<index of the time, pair>>. *)
RowsOf(a, pairs) ==
  LET nt == Len(a.times)
      np == Len(pairs)
  IN IF Layout(a) = "rows" THEN [k \in 1..nt |-> <<k, pairs[k]>>]
     ELSE IF a.tfast = "T"
     THEN LET sp == SortSeq(pairs, LAMBDA x, y : LePair(x, y) /\ x # y)
              st == SortSeq([k \in 1..nt |-> k], LAMBDA x, y : a.times[x] < a.times[y])
          IN [q \in 1..(nt * np) |-> <<st[((q - 1) % nt) + 1], sp[((q - 1) \div nt) + 1]>>]
     ELSE [q \in 1..(nt * np) |-> <<((q - 1) \div np) + 1, pairs[((q - 1) % np) + 1]>>]

WidthOf(a, j) ==
  IF Len(a.widths) = 1 THEN a.widths[1]
  ELSE IF a.widths # <<>> THEN a.widths[j]
  ELSE IF Len(a.freqs) = 1 THEN 1
  ELSE LET d == IF j < Len(a.freqs) THEN a.freqs[j + 1] - a.freqs[j] ELSE a.freqs[j] - a.freqs[j - 1]
       IN IF d < 0 THEN 0 - d ELSE d
SpwOf(a, j) == IF a.spwids = <<>> THEN 0 ELSE a.spwids[j]

CatIds(a) == {a.cat[k].id : k \in 1..Len(a.cat)}
Refused(a) ==
  \/ Layout(a) = "refuse"
  \/ a.its # <<>> /\ Len(a.its) # 1 /\ Len(a.its) # Len(a.times)
  \/ a.widths # <<>> /\ Len(a.widths) # 1 /\ Len(a.widths) # Len(a.freqs)
  \/ Len(a.cat) > 1 /\ a.ids = <<>>
  \/ a.data = "badshape"
  \/ a.badkw
  \/ a.units = "furlong"

NewClauses(a, out, o) ==
  IF Refused(a) THEN Clause(out = "error", "accepted")
  ELSE IF out = "error" THEN {"refused"}
  ELSE LET pairs == IF a.given THEN a.pairs ELSE <<>>
           all == {<<x[1], x[2]>> : x \in Range1(AllPairsOf(SortSeq(AntOrder(o.tel), LAMBDA x, y : x < y)))}
           rows == IF a.given THEN RowsOf(a, pairs) ELSE <<>>
           B(i) == Blts(o)[i]
           TimeIx(t) == CHOOSE k \in 1..Len(a.times) : a.times[k] = t
       IN WellFormedClauses(o)
          \cup (IF a.given
                THEN Clause(NBlt(o) = Len(rows) /\ \A i \in 1..Len(rows) :
                              B(i).t = a.times[rows[i][1]] /\ <<B(i).a1, B(i).a2>> = rows[i][2], "rows")
                     \cup Clause(NBlt(o) = Len(rows) => \A i \in 1..Len(rows) : Near(B(i).it, ItOf(a, rows[i][1]), 1), "integration-times")
                ELSE Clause(/\ NBlt(o) = Len(a.times) * Cardinality(all)
                            /\ {<<B(i).t, {B(i).a1, B(i).a2}>> : i \in 1..NBlt(o)} = {<<t, {x[1], x[2]}>> : t \in Range1(a.times), x \in all}
                            /\ \A i \in 1..(NBlt(o) - 1) :
                                 IF a.tfast = "T" THEN (B(i).a1 = B(i + 1).a1 /\ B(i).a2 = B(i + 1).a2) \/ i % Len(a.times) = 0
                                 ELSE B(i).t = B(i + 1).t \/ i % Cardinality(all) = 0, "rows")
                     \cup Clause(\A i \in 1..NBlt(o) : B(i).t \in Range1(a.times) => Near(B(i).it, ItOf(a, TimeIx(B(i).t)), 1), "integration-times"))
          \cup Clause(\A i \in 1..NBlt(o) : B(i).t \in Range1(a.times) => Near(B(i).lst, a.lst[TimeIx(B(i).t)], 3), "sidereal-times")
          \cup Clause(/\ NFreq(o) = Len(a.freqs)
                      /\ \A j \in 1..NFreq(o) : Freqs(o)[j].f = a.freqs[j] /\ Freqs(o)[j].spw = SpwOf(a, j), "frequencies")
          \cup Clause((NFreq(o) = Len(a.freqs) /\ (a.widths # <<>> \/ a.spwids = <<>>)) => \A j \in 1..NFreq(o) : Freqs(o)[j].w = WidthOf(a, j), "channel-widths")
          \cup Clause([k \in 1..NPol(o) |-> Pols(o)[k].p] = a.pols, "polarizations")
          \cup Clause(a.enu = <<>> \/ \A i \in 1..NBlt(o) : \A k \in 1..3 :
                        Near(B(i).uvw[k], a.enu[1][ToString(B(i).a2)][k] - a.enu[1][ToString(B(i).a1)][k], 2), "uvws")
          \cup Clause(o.tel = a.tel, "telescope")
          \cup Clause(IF a.cat = <<>> THEN Len(o.cat) = 1 /\ \A i \in 1..NBlt(o) : B(i).pcid = o.cat[1].id
                      ELSE /\ {<<o.cat[k].id, o.cat[k].name>> : k \in 1..Len(o.cat)} = {<<a.cat[k].id, a.cat[k].name>> : k \in 1..Len(a.cat)}
                           /\ \A i \in 1..NBlt(o) : B(i).pcid = (IF a.ids = <<>> THEN a.cat[1].id ELSE a.ids[i]), "phase-centers")
          \cup Clause(o.meta.units = a.units, "units")
          \cup Clause(CASE a.data = "none" -> o.meta.only
                        [] a.data = "empty" -> ~o.meta.only /\ \A q \in 1..Len(o.cells) : o.cells[q] = <<0, 0, 0, 1000>>
                        [] OTHER -> ~o.meta.only /\ o.cells = a.cells, "data")
          \cup Clause(\A k \in 1..Len(a.xkw) : a.xkw[k] \in Range1(o.meta.xkw), "keywords")
          \cup Clause(a.hist, "history")
=============================================================================
