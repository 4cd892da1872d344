-------------------------------- MODULE TELE --------------------------------
(* Telescopes: their antennas and where they stand; what is known about named telescopes; and the
   frames antenna positions are given in.  Directions are angles whose sine and cosine are fifths
   (<<s, c>> = <<3, 4>> is asin 0.6), so that every rotation of positions that are multiples of 25 is
   an integer; lengths are in millimetres, absolute positions in centimetres. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ran(s) == {s[k] : k \in 1..Len(s)}
Clause(c, name) == IF c THEN {} ELSE {name}
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b, tol) == AbsI(a - b) <= tol
NearV(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], tol)
Dup(s) == Cardinality(Ran(s)) # Len(s)
None == "none"

------------------------------------------------------------------------
\* frames
Lats == {<<0, 5>>, <<3, 4>>, <<4, 3>>, <<5, 0>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>}
Lons == Lats \cup {<<0, -5>>, <<3, -4>>, <<4, -3>>, <<-3, -4>>, <<-4, -3>>}
\* position relative to the centre, seen from there: east, north, up
EnuOf(d, la, lo) ==
  LET x == d[1] y == d[2] z == d[3] sp == la[1] cp == la[2] sl == lo[1] cl == lo[2]
  IN << (cl * y - sl * x) \div 5,
        (5 * cp * z - sp * cl * x - sp * sl * y) \div 25,
        (5 * sp * z + cp * cl * x + cp * sl * y) \div 25 >>
XyzOf(n, la, lo) ==
  LET e == n[1] h == n[2] u == n[3] sp == la[1] cp == la[2] sl == lo[1] cl == lo[2]
  IN << (cp * cl * u - 5 * sl * e - sp * cl * h) \div 25,
        (cp * sl * u + 5 * cl * e - sp * sl * h) \div 25,
        (cp * h + sp * u) \div 5 >>
RotOf(d, lo) == << (lo[2] * d[1] + lo[1] * d[2]) \div 5, (lo[2] * d[2] - lo[1] * d[1]) \div 5, d[3] >>
UnrotOf(d, lo) == RotOf(d, << 0 - lo[1], lo[2] >>)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* laws: the two directions are inverse and keep lengths and angles
Probe == {<<25, 0, 0>>, <<0, 25, 0>>, <<0, 0, 25>>, <<75, -50, 1000>>}
ASSUME \A la \in Lats, lo \in Lons, d \in Probe, f \in Probe :
         /\ XyzOf(EnuOf(d, la, lo), la, lo) = d /\ EnuOf(XyzOf(d, la, lo), la, lo) = d
         /\ Dot(EnuOf(d, la, lo), EnuOf(f, la, lo)) = Dot(d, f)
         /\ UnrotOf(RotOf(d, lo), lo) = d /\ Dot(RotOf(d, lo), RotOf(f, lo)) = Dot(d, f)
         \* up at latitude 0, longitude 0 is x; east is y
         /\ EnuOf(d, <<0, 5>>, <<0, 5>>) = <<d[2], d[3], d[1]>>
\* the surface: distance from the axis and height above the equator, in cm, at altitude 0
Axis(b, la) ==
  LET k == AbsI(la[1]) + 1
  IN CASE b = "earth" -> <<637813700, 0, 0, 510866920, 383510659, 0>>[k]
       [] b = "SPHERE" -> <<173710000, 0, 0, 138968000, 104226000, 0>>[k]
       [] b = "GSFC" -> <<173810000, 0, 0, 139108072, 104366136, 0>>[k]
       [] b = "GRAIL23" -> <<173757660, 0, 0, 139021391, 104274949, 0>>[k]
       [] OTHER -> <<173763200, 0, 0, 139061970, 104326496, 0>>[k]
Height(b, la) ==
  LET k == AbsI(la[1]) + 1
      z == CASE b = "earth" -> <<0, 0, 0, 380585237, 507924391, 635675231>>[k]
             [] b = "SPHERE" -> <<0, 0, 0, 104226000, 138968000, 173710000>>[k]
             [] b = "GSFC" -> <<0, 0, 0, 104080809, 138821077, 173601428>>[k]
             [] b = "GRAIL23" -> <<0, 0, 0, 104202451, 138948468, 173704664>>[k]
             [] OTHER -> <<0, 0, 0, 104082308, 138816354, 173584700>>[k]
  IN IF la[1] < 0 THEN 0 - z ELSE z
Fifth(x, n) == ((x \div 5) * n) + (((x % 5) * n) \div 5)
\* altitude h in metres, a multiple of 25
\* (h m is 100 h cm; 100 / 25 = 4 and 100 / 5 = 20)
Where(b, la, lo, h) ==
  << Fifth(Axis(b, la), lo[2]) + h * 4 * la[2] * lo[2], Fifth(Axis(b, la), lo[1]) + h * 4 * la[2] * lo[1], Height(b, la) + h * 20 * la[1] >>

FrameClauses(e) ==
  LET a == e.args ok == e.out = "ok"
  IN CASE e.op = "ToEnu" ->
            IF a.far \/ a.shape # "ok" THEN Clause(~ok, IF a.far THEN "far-from-the-surface-accepted" ELSE "wrong-shape-accepted")
            ELSE IF ~ok THEN {"positions-refused"}
            ELSE Clause(Len(e.res) = Len(a.pts) /\ \A k \in 1..Len(e.res) : NearV(e.res[k], [j \in 1..3 |-> EnuOf(a.pts[k], a.lat, a.lon)[j] * 1000], 2), "east-north-up")
       [] e.op = "FromEnu" ->
            IF a.shape # "ok" THEN Clause(~ok, "wrong-shape-accepted")
            ELSE IF ~ok THEN {"positions-refused"}
            ELSE Clause(Len(e.res) = Len(a.pts) /\ \A k \in 1..Len(e.res) : NearV(e.res[k], [j \in 1..3 |-> XyzOf(a.pts[k], a.lat, a.lon)[j] * 1000], 2), "earth-centred")
       [] e.op = "Rotate" ->
            IF ~ok THEN {"positions-refused"}
            ELSE Clause(Len(e.res) = Len(a.pts) /\ \A k \in 1..Len(e.res) :
                          NearV(e.res[k], [j \in 1..3 |-> (IF a.back THEN UnrotOf(a.pts[k], a.lon) ELSE RotOf(a.pts[k], a.lon))[j] * 1000], 2), "rotated")
       [] e.op = "Xyz" ->
            IF a.bad THEN Clause(~ok, "different-lengths-accepted")
            ELSE IF ~ok THEN {"place-refused"}
            ELSE Clause(Len(e.res) = Len(a.places) /\ \A k \in 1..Len(e.res) :
                          NearV(e.res[k], Where(a.body, a.places[k].lat, a.places[k].lon, a.places[k].alt), 3), "place")
       [] e.op = "Lla" ->  \* of the places of a, given as positions
            IF a.far THEN IF a.check THEN Clause(~ok, "far-from-the-surface-accepted") ELSE Clause(ok, "unchecked-refused")
            ELSE IF ~ok THEN {"position-refused"}
            ELSE Clause(Len(e.res) = Len(a.places) /\ \A k \in 1..Len(e.res) :
                          /\ e.res[k].lat = a.places[k].lat
                          /\ (a.places[k].lat[2] # 0 => e.res[k].lon = a.places[k].lon)
                          /\ Near(e.res[k].alt, a.places[k].alt * 1000, 5), "latitude-longitude-altitude")
       [] e.op = "Surface" ->  \* radii in km
            LET lim == IF a.body = "earth" THEN <<6350, 6390>> ELSE <<1717, 1758>>
                good == \A k \in 1..Len(a.radii) : lim[1] < a.radii[k] /\ a.radii[k] < lim[2]
            IN IF good THEN Clause(ok /\ e.res.good /\ ~e.res.warned, "surface-refused")
               ELSE IF a.raise THEN Clause(~ok, "off-surface-accepted")
               ELSE Clause(ok /\ ~e.res.good /\ e.res.warned = a.warn, "off-surface-not-told")

------------------------------------------------------------------------
\* telescopes.  t: [name, loc, nums, names, pos, diam, xo, inst, nants]; sequences <<>> are unset
Rows(t) == [k \in 1..Len(t.nums) |-> <<t.nums[k], t.names[k], t.pos[k]>>]
Whole(t) == /\ t.name # None /\ t.loc # None /\ Len(t.nums) > 0
            /\ Len(t.names) = Len(t.nums) /\ Len(t.pos) = Len(t.nums) /\ t.nants = Len(t.nums)
            /\ (t.diam = <<>> \/ Len(t.diam) = Len(t.nums))
SameTel(o, w, c) ==
  Clause(o.name = w.name, c \o "-name") \cup Clause(o.loc = w.loc, c \o "-location")
  \cup Clause(o.nants = w.nants /\ o.nums = w.nums, c \o "-antenna-numbers") \cup Clause(o.names = w.names, c \o "-antenna-names")
  \cup Clause(o.pos = w.pos, c \o "-positions") \cup Clause(o.diam = w.diam, c \o "-diameters")
  \cup Clause(o.xo = w.xo, c \o "-x-orientation") \cup Clause(o.inst = w.inst, c \o "-instrument")

\* a telescope from its parts.  keys: "" / "int" / "str" (positions given by number or by name);
\* asint: the numbers the given names stand for (<<>>: not all of them do); asname: the names of the given numbers
NewClauses(e) ==
  LET a == e.args ok == e.out = "ok"
      named == a.names # <<>>
      numbered == a.nums # <<>>
      nums == IF numbered THEN a.nums ELSE a.asint
      names == IF named THEN a.names ELSE a.asname
      bad == \/ ~named /\ ~numbered
             \/ nums = <<>> \/ Dup(nums) \/ Dup(names) \/ Len(nums) # Len(names)
             \/ Len(a.pos) # Len(nums) \/ a.posbad \/ a.locbad
             \/ (a.diam # <<>> /\ Len(a.diam) # Len(nums)) \/ a.xobad
      want == [name |-> a.name, loc |-> a.loc, nums |-> nums, names |-> names, pos |-> a.pos, diam |-> a.diam, xo |-> a.xo, inst |-> a.inst, nants |-> Len(nums)]
  IN IF bad THEN Clause(~ok, "contradictory-parts-accepted")
     ELSE IF ~ok THEN {"parts-refused"} ELSE SameTel(e.res, want, "new") \cup Clause(e.keep, "arguments-changed")

\* what is known of a telescope: d: [has, loc, file, rows: sequence of [num, name, pos], diam, xo]; site: where astropy has it
RowOfName(d, n, used) == LET S == {k \in 1..Len(d.rows) : d.rows[k].name = n} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
RowOfNum(d, n) == LET S == {k \in 1..Len(d.rows) : d.rows[k].num = n} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
ByName(t, d) == IF t.names = <<>> THEN [k \in 1..Len(t.nums) |-> 0] ELSE [k \in 1..Len(t.names) |-> RowOfName(d, t.names[k], {})]
RECURSIVE ByNum(_, _, _, _)
ByNum(t, d, m, k) ==
  IF k > Len(m) THEN m
  ELSE LET r == RowOfNum(d, t.nums[k])
       IN IF m[k] # 0 \/ r = 0 \/ r \in Ran(m) THEN ByNum(t, d, m, k + 1) ELSE ByNum(t, d, [m EXCEPT ![k] = r], k + 1)
Match(t, d) == LET m == ByName(t, d) IN IF t.nums = <<>> THEN m ELSE ByNum(t, d, m, 1)
WithAnts(t, d, ow) ==
  LET allmissing == t.nums = <<>> /\ t.names = <<>> /\ t.pos = <<>> /\ t.nants = 0
      missing == t.nums = <<>> \/ t.names = <<>> \/ t.pos = <<>>
      table == [t EXCEPT !.nums = [k \in 1..Len(d.rows) |-> d.rows[k].num], !.names = [k \in 1..Len(d.rows) |-> d.rows[k].name],
                         !.pos = [k \in 1..Len(d.rows) |-> d.rows[k].pos], !.nants = Len(d.rows)]
      m == Match(t, d)
  IN IF ~d.file \/ ~(ow \/ missing) THEN t
     ELSE IF ow \/ allmissing THEN table
     ELSE IF (t.nums = <<>> /\ t.names = <<>>) \/ 0 \in Ran(m) THEN t
     ELSE [t EXCEPT !.nums = IF @ = <<>> THEN [k \in 1..Len(m) |-> d.rows[m[k]].num] ELSE @,
                    !.names = IF @ = <<>> THEN [k \in 1..Len(m) |-> d.rows[m[k]].name] ELSE @,
                    !.pos = IF @ = <<>> THEN [k \in 1..Len(m) |-> d.rows[m[k]].pos] ELSE @]
WithDiams(t, d, ow) ==
  IF d.diam = <<>> \/ ~(ow \/ t.diam = <<>>) THEN t
  ELSE IF Len(d.diam) = 1 THEN [t EXCEPT !.diam = [k \in 1..t.nants |-> d.diam[1]]]
  ELSE IF Len(d.diam) = t.nants THEN [t EXCEPT !.diam = d.diam] ELSE t
WithXo(t, d, ow) == IF d.xo = None \/ ~(ow \/ t.xo = None) THEN t ELSE [t EXCEPT !.xo = d.xo]
Filled(t, d, site, ow) ==
  LET t1 == IF ow \/ t.loc = None THEN [t EXCEPT !.loc = IF site # None THEN site ELSE d.loc] ELSE t
  IN IF ~d.has THEN t1 ELSE WithXo(WithDiams(WithAnts(t1, d, ow), d, ow), d, ow)
Unplaced(t, d, site, ow) == (ow \/ t.loc = None) /\ site = None /\ (~d.has \/ d.loc = None)
KnownClauses(e) ==
  LET a == e.args ok == e.out = "ok" t == e.pre w == Filled(t, a.known, a.site, a.overwrite)
      bad == t.name = None \/ Unplaced(t, a.known, a.site, a.overwrite)
  IN IF bad THEN Clause(~ok, "unknown-telescope-accepted") \cup (IF a.fresh THEN {} ELSE Clause(e.res = t, "refused-but-changed"))
     ELSE IF a.check /\ ~Whole(w) THEN Clause(~ok, "incomplete-telescope-accepted")
     ELSE IF ~ok THEN {"known-telescope-refused"} ELSE SameTel(e.res, w, "known")

\* to a file and back.  dropped: what is taken out of the file in between
Blank(t, dr) ==
  [t EXCEPT !.inst = IF "instrument" \in dr THEN None ELSE @, !.xo = IF "x_orientation" \in dr THEN None ELSE @,
            !.diam = IF "antenna_diameters" \in dr THEN <<>> ELSE @, !.names = IF "antenna_names" \in dr THEN <<>> ELSE @,
            !.nums = IF "antenna_numbers" \in dr THEN <<>> ELSE @, !.pos = IF "antenna_positions" \in dr THEN <<>> ELSE @,
            !.name = IF "telescope_name" \in dr THEN None ELSE @, !.nants = IF "Nants_telescope" \in dr THEN 0 ELSE @]
HeaderClauses(e) ==
  LET a == e.args ok == e.out = "ok" w == Blank(e.pre, Ran(a.dropped)) IN
  IF Ran(a.dropped) \cap Ran(a.required) # {} THEN Clause(~ok, "required-missing-accepted")
  ELSE IF a.check /\ ~Whole(w) THEN Clause(~ok, "incomplete-telescope-accepted")
  ELSE IF ~ok THEN {"telescope-refused"}
  ELSE SameTel(e.res, w, "read") \cup Clause(a.dropped # <<>> \/ e.equal, "read-not-equal")
\* antenna positions as seen from the telescope
TelEnuClauses(e) ==
  LET a == e.args t == e.pre
  IN IF e.out # "ok" THEN {"positions-refused"}
     ELSE Clause(Len(e.res) = Len(a.pts) /\ \A k \in 1..Len(e.res) : NearV(e.res[k], [j \in 1..3 |-> EnuOf(a.pts[k], a.lat, a.lon)[j] * 1000], 2), "east-north-up")
          \cup Clause(e.keep, "telescope-changed")
TelClauses(e) ==
  CASE e.op = "NewTelescope" -> NewClauses(e)
    [] e.op = "Known" -> KnownClauses(e)
    [] e.op = "Header" -> HeaderClauses(e)
    [] e.op = "AntsEnu" -> TelEnuClauses(e)
=============================================================================
