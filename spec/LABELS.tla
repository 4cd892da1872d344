------------------------------- MODULE LABELS -------------------------------
(* The names and numbers of what an interferometer measures: polarization and Jones names, baseline
   numbers, and the antenna strings that select by them.  Numbers above 2^31 are pairs <<hi, lo>> with
   value hi * 2^31 + lo. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ran(s) == {s[k] : k \in 1..Len(s)}
MaxInt == 2147483647
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

------------------------------------------------------------------------
\* polarizations.  xo = "" (none or unknown), "east", "north"
PolNums == {1, 2, 3, 4, -1, -2, -3, -4, -5, -6, -7, -8}
JonesNums == {-1, -2, -3, -4, -5, -6, -7, -8}
XLetter(xo) == CASE xo = "east" -> "e" [] xo = "north" -> "n" [] OTHER -> "x"
YLetter(xo) == CASE xo = "east" -> "n" [] xo = "north" -> "e" [] OTHER -> "y"
\* the feeds of the two antennas
Feeds(n, xo) ==
  LET x == XLetter(xo) y == YLetter(xo)
  IN CASE n = -1 -> <<"r", "r">> [] n = -2 -> <<"l", "l">> [] n = -3 -> <<"r", "l">> [] n = -4 -> <<"l", "r">>
       [] n = -5 -> <<x, x>> [] n = -6 -> <<y, y>> [] n = -7 -> <<x, y>> [] n = -8 -> <<y, x>>
PolName(n, xo) ==
  CASE n = 1 -> "pI" [] n = 2 -> "pQ" [] n = 3 -> "pU" [] n = 4 -> "pV"
    [] OTHER -> Feeds(n, xo)[1] \o Feeds(n, xo)[2]
JonesName(n, xo) == "J" \o Feeds(n, xo)[1] \o Feeds(n, xo)[2]
\* what may be given, in lower case
LowStokes == {<<"pi", 1>>, <<"pq", 2>>, <<"pu", 3>>, <<"pv", 4>>, <<"i", 1>>, <<"q", 2>>, <<"u", 3>>, <<"v", 4>>}
PolWords(xo) ==
  LowStokes \cup {<<PolName(n, ""), n>> : n \in JonesNums} \cup {<<PolName(n, xo), n>> : n \in JonesNums}
  \cup {<<"hh", -5>>, <<"vv", -6>>, <<"hv", -7>>, <<"vh", -8>>}
JonesWords(xo) ==
  UNION {{<<Feeds(n, w)[1] \o Feeds(n, w)[2], n>>, <<"j" \o Feeds(n, w)[1] \o Feeds(n, w)[2], n>>} : n \in JonesNums, w \in {"", xo}}
  \cup UNION {{<<Feeds(n, w)[1], n>> : n \in {-1, -2, -5, -6}} : w \in {"", xo}}
Words(kind, xo) == IF kind = "pol" THEN PolWords(xo) ELSE JonesWords(xo)
Known(kind, xo, s) == \E p \in Words(kind, xo) : p[1] = s
NumOf(kind, xo, s) == (CHOOSE p \in Words(kind, xo) : p[1] = s)[2]
NameOf(kind, xo, n) == IF kind = "pol" THEN PolName(n, xo) ELSE JonesName(n, xo)
NumsOf(kind) == IF kind = "pol" THEN PolNums ELSE JonesNums
\* exchanging the two antennas exchanges the feeds
ConjNum(n) == CASE n = -3 -> -4 [] n = -4 -> -3 [] n = -7 -> -8 [] n = -8 -> -7 [] OTHER -> n
ConjWords == {<<"xx", "xx">>, <<"yy", "yy">>, <<"xy", "yx">>, <<"yx", "xy">>, <<"ee", "ee">>, <<"nn", "nn">>, <<"en", "ne">>, <<"ne", "en">>,
              <<"rr", "rr">>, <<"ll", "ll">>, <<"rl", "lr">>, <<"lr", "rl">>, <<"i", "I">>, <<"q", "Q">>, <<"u", "U">>, <<"v", "V">>,
              <<"pi", "pI">>, <<"pq", "pQ">>, <<"pu", "pU">>, <<"pv", "pV">>}
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
CasaOrder == <<1, 2, 3, 4, -1, -3, -4, -2, -5, -7, -8, -6>>
CasaRank(p) == CHOOSE k \in 1..12 : CasaOrder[k] = p

\* laws of the names themselves
ASSUME \A xo \in {"", "east", "north"}, k \in {"pol", "jones"} :
         /\ \A a, b \in Words(k, xo) : a[1] = b[1] => a[2] = b[2]
         /\ \A m, n \in NumsOf(k) : NameOf(k, xo, m) = NameOf(k, xo, n) => m = n
ASSUME \A n \in PolNums : ConjNum(ConjNum(n)) = n
ASSUME \A n \in JonesNums, xo \in {"", "east", "north"} : Feeds(ConjNum(n), xo) = <<Feeds(n, xo)[2], Feeds(n, xo)[1]>>

NameClauses(e) ==
  LET a == e.args ok == e.out = "ok" ks == 1..Len(a.items)
  IN CASE e.op = "Num" ->
            LET good == \A k \in ks : Known(a.kind, a.xo, a.items[k])
            IN IF ok # good THEN {IF ok THEN "unknown-name-accepted" ELSE "name-refused"}
               ELSE IF ok /\ e.res # [k \in ks |-> NumOf(a.kind, a.xo, a.items[k])] THEN {"name-to-number"} ELSE {}
       [] e.op = "Name" ->
            LET good == \A k \in ks : a.items[k] \in NumsOf(a.kind)
            IN IF ok # good THEN {IF ok THEN "unknown-number-accepted" ELSE "number-refused"}
               ELSE IF ok /\ e.res # [k \in ks |-> NameOf(a.kind, a.xo, a.items[k])] THEN {"number-to-name"} ELSE {}
       [] e.op = "Canon" ->
            LET good == \A k \in ks : Known(a.kind, a.xo, a.items[k])
            IN IF ok # good THEN {IF ok THEN "unknown-name-accepted" ELSE "name-refused"}
               ELSE IF ok /\ e.res # [k \in ks |-> NameOf(a.kind, a.xo, NumOf(a.kind, a.xo, a.items[k]))] THEN {"canonical-name"} ELSE {}
       [] e.op = "ConjNum" ->
            IF ~ok THEN {"number-refused"} ELSE IF e.res # [k \in ks |-> ConjNum(a.items[k])] THEN {"conjugate-number"} ELSE {}
       [] e.op = "ConjName" ->
            IF ~ok THEN {"name-refused"}
            ELSE IF e.res # [k \in ks |-> (CHOOSE p \in ConjWords : p[1] = a.items[k])[2]] THEN {"conjugate-name"} ELSE {}
       [] e.op = "ConjOrder" ->
            LET good == \A k \in ks : \E m \in ks : a.items[m] = ConjNum(a.items[k])
            IN IF ok # good THEN {IF ok THEN "incomplete-accepted" ELSE "complete-refused"}
               ELSE IF ok /\ (Len(e.res) # Len(a.items) \/ \E k \in ks : a.items[e.res[k] + 1] # ConjNum(a.items[k])) THEN {"conjugate-order"} ELSE {}
       [] e.op = "PolOrder" ->
            IF ~ok THEN {"order-refused"}
            ELSE IF Len(e.res) # Len(a.items) \/ {e.res[k] + 1 : k \in 1..Len(e.res)} # ks THEN {"not-a-permutation"}
            ELSE LET s == [k \in ks |-> a.items[e.res[k] + 1]]
                 IN IF \E k \in ks : k < Len(s) /\ ~(IF a.order = "AIPS" THEN AbsI(s[k]) <= AbsI(s[k + 1]) ELSE CasaRank(s[k]) <= CasaRank(s[k + 1]))
                    THEN {"polarization-order"} ELSE {}

------------------------------------------------------------------------
\* baseline numbers
Offset2048 == 65536
OffsetLarge == 4259840
Small256(a, b) == <<0, 256 * a + b>>
Mid2048(a, b) == <<0, Offset2048 + 2048 * a + b>>
Large(a, b) == IF b > MaxInt - OffsetLarge THEN <<a + 1, b - (MaxInt - OffsetLarge) - 1>> ELSE <<a, b + OffsetLarge>>
Scheme(a1, a2, nants, att) ==
  LET top == SetMax(Ran(a1) \cup Ran(a2))
  IN IF att /\ top < 256 THEN "256" ELSE IF top < 2048 /\ nants <= 2048 THEN "2048" ELSE "large"
Encode(a1, a2, nants, att, mir) ==
  LET s == Scheme(a1, a2, nants, att)
  IN [k \in 1..Len(a1) |->
        IF mir THEN (IF a2[k] > 255 THEN Mid2048(a1[k], a2[k]) ELSE Small256(a1[k], a2[k]))
        ELSE CASE s = "256" -> Small256(a1[k], a2[k]) [] s = "2048" -> Mid2048(a1[k], a2[k]) [] OTHER -> Large(a1[k], a2[k])]
Under(n, lim) == n[1] = 0 /\ n[2] < lim
DecodeOne(n, s) ==
  CASE s = "256" -> <<n[2] \div 256, n[2] % 256>>
    [] s = "2048" -> <<(n[2] - Offset2048) \div 2048, (n[2] - Offset2048) % 2048>>
    [] OTHER -> IF n[2] >= OffsetLarge THEN <<n[1], n[2] - OffsetLarge>> ELSE <<n[1] - 1, (MaxInt - OffsetLarge) + 1 + n[2]>>
DecodeScheme(ns) ==
  IF \E k \in 1..Len(ns) : Under(ns[k], Offset2048) THEN "256"
  ELSE IF \E k \in 1..Len(ns) : Under(ns[k], OffsetLarge) THEN "2048" ELSE "large"
Decode(ns) == [k \in 1..Len(ns) |-> DecodeOne(ns[k], DecodeScheme(ns))]

\* law: the numbers of any antennas give the antennas back, whatever else is numbered along with them
Probe == {0, 1, 255, 256, 2047, 2048, MaxInt - 1}
ASSUME \A a, b, c, d \in Probe : \A att \in BOOLEAN : \A nants \in {10, 3000} :
         Decode(Encode(<<a, c>>, <<b, d>>, nants, att, FALSE)) = << <<a, b>>, <<c, d>> >>
ASSUME \A a, b, c, d \in Probe : \A att \in BOOLEAN :
         LET e == Encode(<<a, c>>, <<b, d>>, 10, att, FALSE) IN (e[1] = e[2]) <=> (a = c /\ b = d)

BlClauses(e) ==
  LET a == e.args ok == e.out = "ok"
  IN CASE e.op = "Number" ->
            LET good == ~a.bad
            IN IF ok # good THEN {IF ok THEN "impossible-antenna-accepted" ELSE "antennas-refused"}
               ELSE IF ok /\ e.res # Encode(a.a1, a.a2, a.nants, a.att, a.mir) THEN {"baseline-number"} ELSE {}
       [] e.op = "Antennas" ->
            IF a.bad THEN IF ok THEN {"impossible-number-accepted"} ELSE {}
            ELSE IF ~ok THEN {"number-refused"} ELSE IF e.res # Decode(a.nums) THEN {"antenna-numbers"} ELSE {}
       [] e.op = "Flip" ->
            LET d == Decode(a.nums)
            IN IF ~ok THEN {"number-refused"}
               ELSE IF e.res # Encode([k \in 1..Len(d) |-> d[k][2]], [k \in 1..Len(d) |-> d[k][1]], a.nants, FALSE, FALSE) THEN {"reversed-baseline"} ELSE {}

------------------------------------------------------------------------
\* antenna strings: terms are taken in order, each adds or takes away baselines and polarizations
\* a term: [kind, one, i, j]; i, j: sequences of [neg, num, f]; one: no second antenna is named
XY(f) == f \in {"x", "y"}
TermPols(x, y) ==
  CASE x.f = "" /\ y.f = "" -> {}
    [] x.f = "" -> {(IF XY(y.f) THEN "x" ELSE "l") \o y.f, (IF XY(y.f) THEN "y" ELSE "r") \o y.f}
    [] y.f = "" -> {x.f \o (IF XY(x.f) THEN "x" ELSE "l"), x.f \o (IF XY(x.f) THEN "y" ELSE "r")}
    [] OTHER -> {x.f \o y.f}
PolNumOf(s) == NumOf("pol", "", s)
Measured(d, ps) == {PolNumOf(p) : p \in ps} \cap Ran(d.pols)
DataPairs(d) == Ran(d.pairs)
DataAnts(d) == {p[1] : p \in DataPairs(d)} \cup {p[2] : p \in DataPairs(d)}
Autos(d) == {p \in DataPairs(d) : p[1] = p[2]}
OnePair(d, st, x, y) ==
  LET fwd == <<x.num, y.num>> rev == <<y.num, x.num>>
      known == fwd \in DataPairs(d) \/ rev \in DataPairs(d)
      pr == IF fwd \in DataPairs(d) THEN fwd ELSE rev
      named == x.f # "" \/ y.f # ""
      ps == Measured(d, TermPols(x, y))
  IN IF ~known THEN st
     ELSE IF ~x.neg /\ ~y.neg THEN [st EXCEPT !.pairs = @ \cup {pr}, !.pols = @ \cup ps]
     ELSE IF named THEN [st EXCEPT !.pols = @ \ ps, !.pairs = IF Len(d.pols) = 1 /\ ps # {} THEN @ \ {pr} ELSE @]
     ELSE [st EXCEPT !.pairs = @ \ {pr}]
RECURSIVE FoldPairs(_, _, _, _)
FoldPairs(d, st, i, js) == IF js = <<>> THEN st ELSE FoldPairs(d, OnePair(d, st, i, Head(js)), i, Tail(js))
RECURSIVE FoldI(_, _, _, _)
FoldI(d, st, is, js) == IF is = <<>> THEN st ELSE FoldI(d, FoldPairs(d, st, Head(is), js), Tail(is), js)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
Term(d, st, t) ==
  CASE t.kind = "all" -> [st EXCEPT !.pairs = DataPairs(d)]
    [] t.kind = "auto" -> [st EXCEPT !.pairs = @ \cup Autos(d)]
    [] t.kind = "cross" -> [st EXCEPT !.pairs = @ \cup (DataPairs(d) \ Autos(d))]
    [] t.kind = "stokes" -> [st EXCEPT !.pols = @ \cup {t.num}]
    [] OTHER -> FoldI(d, st, t.i, IF t.one THEN [k \in 1..Cardinality(DataAnts(d)) |-> [neg |-> FALSE, num |-> SetSeq(DataAnts(d))[k], f |-> ""]] ELSE t.j)
RECURSIVE Terms(_, _, _)
Terms(d, st, ts) == IF ts = <<>> THEN st ELSE Terms(d, Term(d, st, Head(ts)), Tail(ts))
Start(d, ts) ==
  [pairs |-> IF ts[1].kind = "ants" /\ ts[1].i[1].neg /\ ~ts[1].paren THEN DataPairs(d) ELSE {}, pols |-> {}]
Parsed(d, ts) == Terms(d, Start(d, ts), ts)
AstrClauses(e) ==
  LET a == e.args d == e.data ok == e.out = "ok" st == Parsed(d, a.terms)
      lone == IF Len(a.terms) = 1 THEN a.terms[1].kind ELSE ""
      none == lone = "all" \/ (\A k \in 1..Len(a.terms) : a.terms[k].kind = "stokes")
      r == e.res
  IN IF a.bad THEN IF ok THEN {"unparsable-accepted"} ELSE {}
     ELSE IF ~ok THEN {"antenna-string-refused"}
     ELSE (IF r.nopairs # none THEN {"pairs-none"} ELSE {})
          \cup (IF ~none /\ (Ran(r.pairs) # st.pairs \/ Cardinality(Ran(r.pairs)) # Len(r.pairs)) THEN {"pairs"} ELSE {})
          \cup (IF r.nopols # (st.pols = {}) THEN {"pols-none"} ELSE {})
          \cup (IF Ran(r.pols) # st.pols \/ \E k \in 1..(Len(r.pols) - 1) : r.pols[k] <= r.pols[k + 1] THEN {"pols"} ELSE {})
\* selecting by the string keeps exactly what it names; naming nothing is refused
AstrSelClauses(e) ==
  LET a == e.args d == e.data ok == e.out = "ok" st == Parsed(d, a.terms)
      lone == IF Len(a.terms) = 1 THEN a.terms[1].kind ELSE ""
      everything == lone = "all"
      ps == IF st.pols = {} THEN Ran(d.pols) ELSE st.pols
      prs == IF everything \/ (\A k \in 1..Len(a.terms) : a.terms[k].kind = "stokes") THEN DataPairs(d) ELSE st.pairs
      bad == a.bad \/ ~(ps \subseteq Ran(d.pols)) \/ (prs = {})
  IN IF bad THEN IF ok THEN {"empty-selection-accepted"} ELSE IF e.same THEN {} ELSE {"refused-but-changed"}
     ELSE IF ~ok THEN {"antenna-string-refused"}
     ELSE (IF Ran(e.res.pairs) # prs THEN {"selected-pairs"} ELSE {}) \cup (IF Ran(e.res.pols) # ps THEN {"selected-pols"} ELSE {})
=============================================================================
