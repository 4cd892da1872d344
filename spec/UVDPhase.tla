------------------------------ MODULE UVDPhase ------------------------------
(***************************************************************************)
(* Phasing and the phase center catalog.                                   *)
(* State adds to UVD:  ph   <<amplitude, phase>> per cell (phase in 1e-5   *)
(*                          turns)                                         *)
(*                     fr   fringe phase w*f/c per (blt, freq) in 1e-5     *)
(*                          turns, 0 for unprojected rows                  *)
(* Law: phasing rotates every visibility so that phase + fringe is         *)
(* conserved; it never touches rows that were not selected.                *)
(***************************************************************************)
EXTENDS UVDAccess

TURN == 100000
PTol == 6
ModNear(x, y, tol) == LET d == (x - y) % TURN IN d <= tol \/ d >= TURN - tol
CellRow(o, c) == ((c - 1) \div (NFreq(o) * NPol(o))) + 1
CellFr(o, c) == o.fr[((c - 1) \div NPol(o)) + 1]

CatIds(o) == {o.cat[k].id : k \in 1..Len(o.cat)}
CatEntry(o, id) == o.cat[CHOOSE k \in 1..Len(o.cat) : o.cat[k].id = id]
UsedIds(o) == {Blts(o)[i].pcid : i \in 1..NBlt(o)}
IsProj(o, i) == CatEntry(o, Blts(o)[i].pcid).type # "unprojected"

\* labels that no phasing operation may touch
FixedLabel(b) == <<b.t, b.lst, b.a1, b.a2, b.bl, b.it, b.scan>>
\* what describes the projection of a row (the id number itself is bookkeeping)
RowProj(b) == <<b.uvw, b.pc, b.pcr, b.app>>

FrameClauses(o, p, telsame) ==
     Clause(NBlt(o) = NBlt(p) /\ \A i \in 1..NBlt(o) : FixedLabel(Blts(o)[i]) = FixedLabel(Blts(p)[i]), "phase-changed-labels")
\cup Clause(Freqs(o) = Freqs(p) /\ Pols(o) = Pols(p), "phase-changed-axes")
\cup Clause(~telsame \/ o.tel = p.tel, "phase-changed-telescope")
\cup Clause(o.meta = p.meta, "phase-changed-meta")
\cup Clause(Len(o.cells) = Len(p.cells) /\ \A c \in 1..Len(o.cells) : o.cells[c][3] = p.cells[c][3] /\ o.cells[c][4] = p.cells[c][4], "phase-changed-flags-nsamples")

\* rows in S may change; the data of the others is bit for bit the same
DataClauses(o, p, S) ==
     Clause(\A c \in 1..Len(o.cells) : CellRow(o, c) \in S \/ o.cells[c] = p.cells[c], "unselected-data-changed")
\cup Clause(\A c \in 1..Len(o.ph) : CellRow(o, c) \in S => Near(o.ph[c][1], p.ph[c][1], 2 + o.ph[c][1] \div 100000), "amplitude-changed")
\cup Clause(\A c \in 1..Len(o.ph) : (CellRow(o, c) \in S /\ o.ph[c][1] > 0) =>
               ModNear(o.ph[c][2] + CellFr(o, c), p.ph[c][2] + CellFr(p, c), PTol), "fringe-not-conserved")

NearUvw(x, y) == \A k \in 1..3 : Near(x[k], y[k], 3)
NearAng(x, y, tol) == LET d == (x - y) % 6283185 IN d <= tol \/ d >= 6283185 - tol

PhaseCatClauses(o, p, S, cleanup) ==
     Clause(UsedIds(p) \subseteq CatIds(p), "row-without-phase-center")
\cup Clause(p.nphase = Len(p.cat), "Nphase")
\cup Clause(~cleanup \/ CatIds(p) \subseteq UsedIds(p), "unused-phase-center-left")
\cup Clause(cleanup \/ \A k \in 1..Len(o.cat) : o.cat[k].id \notin UsedIds(o) \/ \E j \in 1..Len(p.cat) : p.cat[j].rest = o.cat[k].rest \/ p.cat[j].name = o.cat[k].name, "phase-center-lost")
\cup Clause(\A i \in 1..NBlt(o) : i \in S \/ RowProj(Blts(o)[i]) = RowProj(Blts(p)[i]), "unselected-rows-changed")

\* phase / phase_to_time: args.sel rows (1-based), args.name, args.rest (the catalog entry asked for),
\* args.app (reference apparent coordinates per row), args.uvw (reference uvw per row)
PhaseClauses(o, a, out, p) ==
  IF out = "error"
  THEN Clause(p = o, "failed-call-changed-object") \cup Clause(a.fail, "valid-call-refused")
  ELSE LET S == Range1(a.sel) IN
       Clause(~a.fail, "invalid-call-accepted")
  \cup FrameClauses(o, p, TRUE)
  \cup DataClauses(o, p, S)
  \cup PhaseCatClauses(o, p, S, a.cleanup)
  \cup Clause(\A i \in S : Blts(p)[i].pc = a.name /\ Blts(p)[i].pcr = a.rest, "wrong-phase-center")
  \cup Clause(\A i \in S : /\ NearAng(Blts(p)[i].app[1], a.app[i][1], a.atol)
                           /\ Near(Blts(p)[i].app[2], a.app[i][2], a.atol), "wrong-apparent-coordinates")
  \cup Clause(\A i \in S : NearAng(Blts(p)[i].app[3], a.app[i][3], a.ptol), "wrong-frame-angle")
  \cup Clause(\A i \in S : NearUvw(Blts(p)[i].uvw, a.uvw[i]), "wrong-uvw")

UnprojectClauses(o, a, out, p) ==
  IF out = "error"
  THEN Clause(p = o, "failed-call-changed-object") \cup Clause(a.fail, "valid-call-refused")
  ELSE LET S == {i \in Range1(a.sel) : IsProj(o, i)} IN
       Clause(~a.fail, "invalid-call-accepted")
  \cup FrameClauses(o, p, TRUE)
  \cup DataClauses(o, p, S)
  \cup PhaseCatClauses(o, p, S, TRUE)
  \cup Clause(\A i \in S : ~IsProj(p, i) /\ Blts(p)[i].pc = a.name, "not-unprojected")
  \cup Clause(\A i \in S : NearAng(Blts(p)[i].app[1], a.app[i][1], 2) /\ Near(Blts(p)[i].app[2], a.app[i][2], 2)
                           /\ Blts(p)[i].app[3] = 0, "wrong-apparent-coordinates")
  \cup Clause(\A i \in S : NearUvw(Blts(p)[i].uvw, a.uvw[i]), "wrong-uvw")

\* set_uvws_from_antenna_positions / update_antenna_positions
UvwClauses(o, a, out, p) ==
  IF out = "error" THEN Clause(FALSE, "valid-call-refused") \cup Clause(p = o, "failed-call-changed-object")
  ELSE FrameClauses(o, p, a.op = "set")
  \cup DataClauses(o, p, IF a.vis THEN {i \in 1..NBlt(o) : IsProj(o, i)} ELSE {})
  \cup Clause(o.cat = p.cat /\ o.nphase = p.nphase, "catalog-changed")
  \cup Clause(\A i \in 1..NBlt(o) : Blts(o)[i].app = Blts(p)[i].app /\ Blts(o)[i].pcid = Blts(p)[i].pcid, "projection-changed")
  \cup Clause(\A i \in 1..NBlt(o) : NearUvw(Blts(p)[i].uvw, a.uvw[i]), "wrong-uvw")
  \cup Clause([p.tel EXCEPT !.ants = <<>>] = [o.tel EXCEPT !.ants = <<>>]
              /\ Len(p.tel.ants) = Len(o.tel.ants)
              /\ \A k \in 1..Len(o.tel.ants) : [p.tel.ants[k] EXCEPT !.pos = <<>>] = [o.tel.ants[k] EXCEPT !.pos = <<>>]
                                               /\ p.tel.ants[k].pos = a.pos[k], "wrong-antenna-table")

-----------------------------------------------------------------------------
(* catalog operations; an identifier is [k |-> "name"|"id", v |-> ..] (value as string or int) *)
Matches(o, idt) == {id \in CatIds(o) : IF idt.k = "name" THEN CatEntry(o, id).name = idt.name ELSE id = idt.id}
\* the description of an entry without its name
Body(e) == e.body
SameButCatalog(o, p) ==
     FrameClauses(o, p, TRUE) \cup DataClauses(o, p, {})
\cup Clause(\A i \in 1..NBlt(o) : Blts(o)[i].uvw = Blts(p)[i].uvw /\ Blts(o)[i].app = Blts(p)[i].app, "projection-changed")
\cup Clause(UsedIds(p) \subseteq CatIds(p), "row-without-phase-center")
\cup Clause(p.nphase = Len(p.cat), "Nphase")

RenameClauses(o, a, out, p) ==
  LET M == UNION {Matches(o, a.ids[k]) : k \in 1..Len(a.ids)}
      bad == \E k \in 1..Len(a.ids) : Matches(o, a.ids[k]) = {}
  IN IF out = "error" THEN Clause(p = o, "failed-call-changed-object") \cup Clause(bad, "valid-call-refused")
     ELSE Clause(~bad, "invalid-call-accepted") \cup SameButCatalog(o, p)
     \cup Clause(CatIds(p) = CatIds(o) /\ \A id \in CatIds(o) :
                   /\ CatEntry(p, id).body = CatEntry(o, id).body
                   /\ CatEntry(p, id).name = IF id \in M THEN a.new ELSE CatEntry(o, id).name, "rename-wrong")
     \cup Clause(\A i \in 1..NBlt(o) : Blts(o)[i].pcid = Blts(p)[i].pcid, "rename-moved-rows")

SplitClauses(o, a, out, p) ==
  LET M == Matches(o, a.ids[1])
      id == CHOOSE x \in M : TRUE
      mask == Range1(a.sel)
      mine == {i \in mask : Blts(o)[i].pcid = id}
      rest == {i \in (1..NBlt(o)) \ mine : Blts(o)[i].pcid = id}
      bad == Cardinality(M) # 1 \/ (a.newid # -1 /\ a.newid \in CatIds(o)) \/ (~a.down /\ mask # mine)
      nid == CHOOSE x \in CatIds(p) \ CatIds(o) : TRUE
      newname == IF a.hasname THEN a.new ELSE CatEntry(o, id).name
  IN IF out = "error" THEN Clause(p = o, "failed-call-changed-object") \cup Clause(bad, "valid-call-refused")
     ELSE IF bad THEN {"invalid-call-accepted"}
     ELSE IF mine = {} THEN Clause(p = o, "empty-split-changed-object")
     ELSE SameButCatalog(o, p)
     \cup IF Cardinality(CatIds(p) \ CatIds(o)) # 1 THEN {"split-added-no-phase-center"}
          ELSE Clause(a.newid = -1 \/ a.newid = nid, "split-wrong-id")
          \cup Clause(CatIds(o) \ CatIds(p) = IF rest = {} THEN {id} ELSE {}, "split-lost-phase-center")
          \cup Clause(\A i \in 1..NBlt(o) : Blts(p)[i].pcid = IF i \in mine THEN nid ELSE Blts(o)[i].pcid, "split-rows")
          \cup Clause(CatEntry(p, nid).body = CatEntry(o, id).body /\ CatEntry(p, nid).name = newname, "split-entry")
          \cup Clause(\A x \in CatIds(o) \cap CatIds(p) : CatEntry(p, x) = CatEntry(o, x), "split-changed-others")

\* (catalog order, as given in the projection)
NameIds(o, nm) == LET S == {k \in 1..Len(o.catorder) : CatEntry(o, o.catorder[k]).name = nm}
                     IN PickIdx(o.catorder, IdxSeq(S))

RECURSIVE FlatIds(_, _, _)
FlatIds(o, ids, k) == IF k > Len(ids) THEN <<>>
  ELSE (IF ids[k].k = "id" THEN <<ids[k].id>> ELSE NameIds(o, ids[k].name)) \o FlatIds(o, ids, k + 1)

MergeClauses(o, a, out, p) ==
  LET bad == \E k \in 1..Len(a.ids) : Matches(o, a.ids[k]) = {}
      M == UNION {Matches(o, a.ids[k]) : k \in 1..Len(a.ids)}
      first == FlatIds(o, a.ids, 1)[1]
      differ == \E x \in M : \/ CatEntry(o, x).body # CatEntry(o, first).body
                             \/ (~a.ign /\ CatEntry(o, x).name # CatEntry(o, first).name)
      refuse == bad \/ (Cardinality(M) > 1 /\ differ /\ ~a.force)
  IN IF out = "error" THEN Clause(p = o, "failed-call-changed-object") \cup Clause(refuse, "valid-call-refused")
     ELSE IF refuse THEN {"invalid-call-accepted"}
     ELSE IF Cardinality(M) < 2 THEN Clause(p = o, "empty-merge-changed-object")
     ELSE SameButCatalog(o, p)
     \cup Clause(CatIds(p) = (CatIds(o) \ M) \cup {first}, "merge-ids")
     \cup Clause(\A x \in CatIds(p) \cap CatIds(o) : CatEntry(p, x) = CatEntry(o, x), "merge-changed-entries")
     \cup Clause(\A i \in 1..NBlt(o) : Blts(p)[i].pcid = IF Blts(o)[i].pcid \in M THEN first ELSE Blts(o)[i].pcid, "merge-rows")
=============================================================================
