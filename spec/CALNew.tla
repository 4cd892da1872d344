------------------------------- MODULE CALNew -------------------------------
(* Building a UVCal object from its parts (UVCal.new) or for a UVData object            *)
(* (UVCal.initialize_from_uvdata).                                                      *)
EXTENDS CAL

LeastOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RangeOf(s) == {s[k] : k \in 1..Len(s)}
SortedSet(S) == SortSeq(SetToSeq(S), LAMBDA x, y : x < y)

TelNums(tel) == [k \in 1..Len(tel.ants) |-> tel.ants[k].num]

NextOf(a, t) == LeastOf({u \in RangeOf(a.times) : u > t})
PrevOf(a, t) == CHOOSE u \in RangeOf(a.times) : u < t /\ \A w \in RangeOf(a.times) : w < t => w <= u
ItGiven(a, k) ==
  IF Len(a.its) = 1 THEN a.its[1]
  ELSE IF a.its # <<>> THEN a.its[k]
  ELSE IF a.ranged THEN (a.ranges[k][2] - a.ranges[k][1]) \div 10
  ELSE IF Cardinality(RangeOf(a.times)) = 1 THEN 1000
  ELSE IF \E u \in RangeOf(a.times) : u > a.times[k] THEN (NextOf(a, a.times[k]) - a.times[k]) \div 10
  ELSE (a.times[k] - PrevOf(a, a.times[k])) \div 10

NTimesOf(a) == IF a.ranged THEN Len(a.ranges) ELSE Len(a.times)
CalWidth(a, j) ==
  IF Len(a.widths) = 1 THEN a.widths[1]
  ELSE IF a.widths # <<>> THEN a.widths[j]
  ELSE IF Len(a.freqs) = 1 THEN 1
  ELSE LET d == IF j < Len(a.freqs) THEN a.freqs[j + 1] - a.freqs[j] ELSE a.freqs[j] - a.freqs[j - 1]
       IN IF d < 0 THEN 0 - d ELSE d

CalRefused(a) ==
  \/ a.style = "sky" /\ (~a.hasref \/ ~a.hascat)
  \/ a.style \notin {"sky", "redundant"}
  \/ \E k \in 1..Len(a.ants) : a.ants[k] \notin RangeOf(TelNums(a.tel))
  \/ a.wide /\ a.freqs # <<>>
  \/ ~a.wide /\ a.freqs = <<>>
  \/ a.its # <<>> /\ Len(a.its) # 1 /\ Len(a.its) # NTimesOf(a)
  \/ a.widths # <<>> /\ Len(a.widths) # 1 /\ Len(a.widths) # Len(a.freqs)
  \/ a.badkw
  \/ a.tel.xo = "None"

CalNewClauses(a, out, o) ==
  IF CalRefused(a) THEN Clause(out = "error", "accepted")
  ELSE IF out = "error" THEN {"refused"}
  ELSE LET ants == IF a.ants = <<>> THEN TelNums(a.tel) ELSE a.ants
           T(i) == o.axes.time[i]
           F(j) == o.axes.freq[j]
           typ == IF a.type = "" THEN (IF a.wide THEN "delay" ELSE "gain") ELSE IF a.wide THEN a.type ELSE "gain"
       IN KWFClauses(o)
          \cup Clause([k \in 1..Len(o.axes.ant) |-> o.axes.ant[k].n] = ants, "antennas")
          \cup Clause(/\ Len(o.axes.time) = NTimesOf(a)
                      /\ \A i \in 1..NTimesOf(a) : IF a.ranged THEN T(i).lo = a.ranges[i][1] /\ T(i).hi = a.ranges[i][2] /\ T(i).t = -1
                                                               ELSE T(i).t = a.times[i] /\ T(i).lo = -1, "times")
          \cup Clause(Len(o.axes.time) = NTimesOf(a) => \A i \in 1..NTimesOf(a) : Near(T(i).it, ItGiven(a, i), 1), "integration-times")
          \cup Clause(Len(o.axes.time) = NTimesOf(a) => \A i \in 1..NTimesOf(a) :
                        IF a.ranged THEN Near(T(i).llo, a.lst[i][1], 3) /\ Near(T(i).lhi, a.lst[i][2], 3) ELSE Near(T(i).lst, a.lst[i][1], 3), "sidereal-times")
          \cup (IF a.wide
                THEN Clause(/\ o.meta.wide /\ Len(o.axes.freq) = Len(a.franges)
                            /\ \A j \in 1..Len(a.franges) : F(j).lo = a.franges[j][1] /\ F(j).hi = a.franges[j][2] /\ F(j).spw = j - 1, "frequency-ranges")
                ELSE Clause(/\ ~o.meta.wide /\ Len(o.axes.freq) = Len(a.freqs)
                            /\ \A j \in 1..Len(a.freqs) : F(j).f = a.freqs[j] /\ F(j).spw = (IF a.spwids = <<>> THEN 0 ELSE a.spwids[j]), "frequencies")
                     \cup Clause((Len(o.axes.freq) = Len(a.freqs) /\ (a.widths # <<>> \/ a.spwids = <<>>)) =>
                                   \A j \in 1..Len(a.freqs) : F(j).w = CalWidth(a, j), "channel-widths"))
          \cup Clause([k \in 1..Len(o.axes.jones) |-> o.axes.jones[k].j] = a.jones, "jones")
          \cup Clause(o.meta.type = typ /\ o.meta.style = a.style /\ o.meta.conv = a.conv, "kind")
          \cup Clause(o.tel = a.tel, "telescope")
          \cup Clause(CASE a.data = "none" -> o.meta.only
                        [] a.data = "empty" -> ~o.meta.only /\ \A q \in 1..Len(o.cells) : o.cells[q] = IF typ = "gain" THEN <<1, 0, 0, -1>> ELSE <<0, 0, 0, -1>>
                        [] OTHER -> ~o.meta.only /\ o.cells = a.cells, "data")

(* ------------------------------------------------ from a UVData object u *)
(* u: times <<<<tick, lst, it>>>> (one per row), freqs <<<<f, w, spw>>>>, ants (set of antennas of the data), pols, tel, hist *)
UTimes(u) == SortedSet({u.rows[i][1] : i \in 1..Len(u.rows)})
RowsAt(u, t) == {u.rows[i] : i \in {k \in 1..Len(u.rows) : u.rows[k][1] = t}}
USpws(u) == SortedSet({u.freqs[j][3] : j \in 1..Len(u.freqs)})
FInSpw(u, s) == {u.freqs[j][1] : j \in {k \in 1..Len(u.freqs) : u.freqs[k][3] = s}}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

JonesFor(u) ==
  IF \A k \in 1..Len(u.pols) : u.pols[k] < -4
  THEN IF Len(u.pols) = 1 /\ u.pols[1] > -7 THEN u.pols ELSE <<-5, -6>>
  ELSE IF Len(u.pols) = 1 /\ u.pols[1] > -3 THEN u.pols ELSE <<-1, -2>>

FromRefused(u, a) ==
  \/ a.jones = <<>> /\ \E k \in 1..Len(u.pols) : u.pols[k] >= 0
  \/ a.style = "sky" /\ ~a.hasref
  \/ u.tel.xo = "None" /\ a.xo = ""

SubTel(u, a) ==
  LET keep == IF a.antnums = <<>> THEN u.tel.ants
              ELSE SortSeq(SelectSeq(u.tel.ants, LAMBDA x : x.num \in RangeOf(a.antnums)), LAMBDA x, y : x.num < y.num)
  IN keep

FromClauses(u, a, out, o) ==
  IF FromRefused(u, a) THEN Clause(out = "error", "accepted")
  ELSE IF out = "error" THEN {"refused"}
  ELSE LET T(i) == o.axes.time[i]
           F(j) == o.axes.freq[j]
           ut == UTimes(u)
           sp == USpws(u)
           wide == a.wide \/ a.type = "delay"
           keep == SubTel(u, a)
           ants == SortedSet(RangeOf(u.ants) \cap {keep[k].num : k \in 1..Len(keep)})
       IN KWFClauses(o)
          \cup Clause([k \in 1..Len(o.axes.ant) |-> o.axes.ant[k].n] = ants, "antennas")
          \cup (IF a.newtimes = <<>>
                THEN Clause(Len(o.axes.time) = Len(ut) /\ \A i \in 1..Len(ut) : T(i).t = ut[i], "times")
                     \cup Clause(Len(o.axes.time) = Len(ut) => \A i \in 1..Len(ut) : \E r \in RowsAt(u, ut[i]) : T(i).it = r[3], "integration-times")
                     \cup Clause(Len(o.axes.time) = Len(ut) => \A i \in 1..Len(ut) : \E r \in RowsAt(u, ut[i]) : Near(T(i).lst, r[2], 3), "sidereal-times")
                ELSE Clause([i \in 1..Len(o.axes.time) |-> T(i).t] = a.newtimes, "times"))
          \cup (IF wide
                THEN Clause(/\ o.meta.wide /\ Len(o.axes.freq) = Len(sp)
                            /\ \A j \in 1..Len(sp) : F(j).spw = sp[j] /\ F(j).lo = LeastOf(FInSpw(u, sp[j])) /\ F(j).hi = MaxOf(FInSpw(u, sp[j])), "frequency-ranges")
                ELSE Clause(/\ ~o.meta.wide /\ Len(o.axes.freq) = Len(u.freqs)
                            /\ \A j \in 1..Len(u.freqs) : <<F(j).f, F(j).w, F(j).spw>> = u.freqs[j], "frequencies"))
          \cup Clause([k \in 1..Len(o.axes.jones) |-> o.axes.jones[k].j] = (IF a.jones = <<>> THEN JonesFor(u) ELSE a.jones), "jones")
          \cup Clause(o.tel.ants = keep /\ o.tel.nants = Len(keep) /\ o.tel.name = u.tel.name /\ o.tel.loc = u.tel.loc, "telescope")
          \cup Clause(o.tel.xo = (IF a.xo = "" THEN u.tel.xo ELSE a.xo), "x-orientation")
          \cup Clause(o.meta.type = a.type /\ o.meta.style = a.style /\ o.meta.conv = a.conv, "kind")
          \cup Clause(IF a.empty THEN ~o.meta.only /\ \A q \in 1..Len(o.cells) : o.cells[q] = IF a.type = "gain" THEN <<1, 0, 0, -1>> ELSE <<0, 0, 0, -1>>
                      ELSE o.meta.only, "data")
          \cup Clause(a.histok, "history")
=============================================================================
