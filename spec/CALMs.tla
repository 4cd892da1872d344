-------------------------------- MODULE CALMs -------------------------------
(***************************************************************************)
(* Calibration solutions in measurement set tables.  A file has a row for  *)
(* every antenna of the telescope (those without solutions are flagged),   *)
(* windows in the order of the object's window list, at most two Jones     *)
(* elements (in CASA order), one quality (the product of the two), and     *)
(* always scan numbers.                                                    *)
(***************************************************************************)
EXTENDS CALIO

CmRank(j) == CASE j \in {-1, -5} -> 11 [] j \in {-3, -7} -> 12 [] j \in {-4, -8} -> 13 [] j \in {-2, -6} -> 14 [] OTHER -> 0
CmJones(o) == SetToSortSeq(1..NKJ(o), LAMBDA x, y : CmRank(KJones(o)[x].j) < CmRank(KJones(o)[y].j))
RECURSIVE CmCat(_)
CmCat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CmCat(Tail(ss))
CmFreqs(o) == CmCat([k \in 1..Len(o.meta.spws) |-> IdxSeq({j \in 1..NKF(o) : Freqs(o)[j].spw = o.meta.spws[k]})])
CmTel(o) == [o.tel EXCEPT !.inst = "None", !.ants = LET s == SetToSortSeq(1..Len(@), LAMBDA x, y : @[x].num < @[y].num) IN [k \in 1..Len(s) |-> @[s[k]]]]

CmWriteFails(o) == o.meta.only \/ NKJ(o) > 2 \/ o.meta.conv # "divide"
CmQual(o, a, f, t, j) ==
  LET q == o.cells[((((a - 1) * NKF(o) + (f - 1)) * NKT(o) + (t - 1)) * NKJ(o)) + j][4]
      w == IF o.tq = <<>> THEN 1 ELSE o.tq[(((f - 1) * NKT(o) + (t - 1)) * NKJ(o)) + j]
  IN (IF o.meta.hasq THEN q ELSE 1) * w
CmRefs(o) == {KTimes(o)[i].ref : i \in 1..NKT(o)}
CmName(o, n) == LET k == CHOOSE k \in 1..Len(o.tel.ants) : o.tel.ants[k].num = n IN o.tel.ants[k].name
CmNames(o) == {o.tel.ants[k].name : k \in 1..Len(o.tel.ants)}
CmStored(o) ==
  LET tel == CmTel(o)
      nums == [k \in 1..Len(tel.ants) |-> tel.ants[k].num]
      js == CmJones(o)
      fs == CmFreqs(o)
      na == Len(nums)  nf == Len(fs)  nt == NKT(o)  nj == Len(js)
      row(n) == {k \in 1..NKA(o) : KAnts(o)[k].n = n}
      cell(q) ==
        LET j == ((q - 1) % nj) + 1
            q1 == (q - 1) \div nj
            t == (q1 % nt) + 1
            q2 == q1 \div nt
            f == (q2 % nf) + 1
            k == (q2 \div nf) + 1
            r == row(nums[k])
        IN IF r = {} THEN <<0, 0, 1, 0>>
           ELSE LET a == CHOOSE x \in r : TRUE
                    c == o.cells[((((a - 1) * NKF(o) + (fs[f] - 1)) * nt + (t - 1)) * nj) + js[j]]
                IN <<c[1], c[2], c[3], CmQual(o, a, fs[f], t, js[j])>>
      many == o.meta.hasref /\ Cardinality(CmRefs(o)) > 1
  IN [o EXCEPT !.tel = tel,
               !.axes.ant = [k \in 1..na |-> [n |-> nums[k]]],
               !.axes.freq = [k \in 1..nf |-> Freqs(o)[fs[k]]],
               !.axes.jones = [k \in 1..nj |-> KJones(o)[js[k]]],
               !.axes.time = [i \in 1..nt |-> [KTimes(o)[i] EXCEPT !.scan = IF o.meta.hasscan THEN @ ELSE 0, !.ref = IF many THEN @ ELSE -1]],
               !.cells = [q \in 1..(na * nf * nt * nj) |-> cell(q)],
               !.tq = <<>>, !.tqshape = <<>>,
               !.shape = << <<na, nf, nt, nj>>, <<na, nf, nt, nj>>, <<na, nf, nt, nj>> >>,
               !.meta.hasq = TRUE, !.meta.hasscan = TRUE, !.meta.hasref = many, !.meta.Nants = na,
               !.meta.refname = IF many THEN "various"
                                ELSE IF o.meta.hasref THEN CmName(o, KTimes(o)[1].ref)
                                ELSE IF @ \in CmNames(o) THEN @
                                ELSE IF o.meta.style = "sky" THEN "unknown reference antenna" ELSE "None"]
CmSnap(want, post) ==
  IF NKT(want) # NKT(post) THEN post
  ELSE [post EXCEPT !.axes.time = [i \in 1..NKT(post) |->
         LET w == KTimes(want)[i]
             p == KTimes(post)[i]
             ok == Near(w.t, p.t, 2) /\ Near(w.lst, p.lst, 3) /\ Near(w.lo, p.lo, 2) /\ Near(w.hi, p.hi, 2) /\ Near(w.llo, p.llo, 3) /\ Near(w.lhi, p.lhi, 3)
         IN IF ok THEN [p EXCEPT !.t = w.t, !.lst = w.lst, !.lo = w.lo, !.hi = w.hi, !.llo = w.llo, !.lhi = w.lhi] ELSE p]]
CmWriteClauses(o, out) ==
  IF CmWriteFails(o) THEN Clause(out = "error", "unsupported-object-written") ELSE Clause(out = "ok", "valid-write-refused")
CmReadClauses(f, a, out, post) ==
  IF KSelectFails(f, a) THEN Clause(out = "error", "bad-selection-accepted")
  ELSE IF out = "error" THEN {"valid-read-refused"}
  ELSE LET want == KSelectPost(f, a)
           got == CmSnap(want, post)
       IN KWFClauses(got) \cup KDiff(want, got, {}) \cup Clause(DOMAIN want.meta = DOMAIN got.meta, "scalar-metadata")
=============================================================================
