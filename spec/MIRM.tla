-------------------------------- MODULE MIRM --------------------------------
(* The tables of metadata of an SMA data set: rows that are known by their header key, a mask of the rows
   in use, and a memory of the values a field had before it was first changed.

   A table is [rows, mask, st]: rows a sequence of [k, f, rest] (f the fields that are changed and asked for,
   rest the contents of all others), mask a sequence of booleans, st the stored values by field. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(ok, name) == IF ok THEN {} ELSE {name}
Ran(s) == {s[i] : i \in 1..Len(s)}
Fields == {"a", "b", "c"}
NoStored == [x \in {} |-> <<>>]
N(t) == Len(t.rows)
Keys(t) == {t.rows[i].k : i \in 1..N(t)}
At(t, k) == CHOOSE i \in 1..N(t) : t.rows[i].k = k
MaskOf(t, k) == t.mask[At(t, k)]
RowOf(t, k) == t.rows[At(t, k)]
KeysUnique(t) == Cardinality(Keys(t)) = N(t)
\* the indices for which P holds, in increasing order
Picked(n, P(_)) ==
  LET f[i \in 0..n] == IF i = 0 THEN <<>> ELSE IF P(i) THEN Append(f[i - 1], i) ELSE f[i - 1] IN f[n]
Active(t) == Picked(N(t), LAMBDA i : t.mask[i])

------------------------------------------------------------------------
\* one condition on one row: [fld, cmp, v] with v a sequence of values (one value, a list, or two limits)
Holds(row, w) ==
  LET x == row.f[w.fld]
  IN CASE w.cmp = "eq" -> x \in Ran(w.v)
       [] w.cmp = "ne" -> x \notin Ran(w.v)
       [] w.cmp = "lt" -> x < w.v[1]
       [] w.cmp = "le" -> x <= w.v[1]
       [] w.cmp = "gt" -> x > w.v[1]
       [] w.cmp = "ge" -> x >= w.v[1]
       [] w.cmp = "between" -> x >= w.v[1] /\ x <= w.v[2]
       [] w.cmp = "outside" -> x < w.v[1] \/ x > w.v[2]
Known(q) == {i \in 1..Len(q.where) : q.where[i].fld \in Fields}
Meets(row, q) ==
  IF q.conj THEN \A i \in Known(q) : Holds(row, q.where[i]) ELSE \E i \in Known(q) : Holds(row, q.where[i])

\* a query: [kind \in {"all", "where", "key", "index"}, um \in {"", "yes", "no"}, where, conj, keys, index]
QueryFails(t, q) ==
  \/ (q.kind \in {"key", "index"} /\ q.um = "yes")
  \/ (q.kind = "where" /\ Known(q) = {})
  \/ (q.kind = "key" /\ \E i \in 1..Len(q.keys) : q.keys[i] \notin Keys(t))
  \/ q.twice
QueryRows(t, q) ==
  CASE q.kind = "all" -> IF q.um = "no" THEN [i \in 1..N(t) |-> i] ELSE Active(t)
    [] q.kind = "where" -> Picked(N(t), LAMBDA i : IF q.um = "no" THEN Meets(t.rows[i], q)
                                                    \* the mask counts as one more condition
                                                    ELSE IF q.conj THEN t.mask[i] /\ Meets(t.rows[i], q) ELSE t.mask[i] \/ Meets(t.rows[i], q))
    [] q.kind = "key" -> [i \in 1..Len(q.keys) |-> At(t, q.keys[i])]
    [] q.kind = "index" -> [i \in 1..Len(q.index) |-> q.index[i] + 1]
NoMask(q) == [q EXCEPT !.um = "no"]

------------------------------------------------------------------------
\* changes
SetMask(t, a) ==
  LET sel == CASE a.kind = "mask" /\ a.own -> LET act == Active(t) IN {act[i] : i \in {j \in 1..Len(a.mask) : a.mask[j]}}
               [] a.kind = "mask" -> {i \in 1..Len(a.mask) : a.mask[i]}
               [] OTHER -> Ran(QueryRows(t, NoMask(a.q)))
  IN [t EXCEPT !.mask = [i \in 1..N(t) |->
        IF a.reset THEN i \in sel ELSE IF a.conj THEN t.mask[i] /\ i \in sel ELSE t.mask[i] \/ i \in sel]]
SetValue(t, fld, q, vals) ==
  LET at == QueryRows(t, q)
      \* the last one counts where a row is named twice
      pos(i) == {j \in 1..Len(at) : at[j] = i}
      val(i) == LET p == pos(i) IN vals[CHOOSE j \in p : \A k \in p : j >= k]
  IN [rows |-> [i \in 1..N(t) |-> IF pos(i) = {} THEN t.rows[i] ELSE [t.rows[i] EXCEPT !.f[fld] = val(i)]],
      mask |-> t.mask,
      st |-> IF fld \in DOMAIN t.st THEN t.st ELSE (fld :> [i \in 1..N(t) |-> t.rows[i].f[fld]]) @@ t.st]
ResetValues(t, flds) ==
  [rows |-> [i \in 1..N(t) |-> [t.rows[i] EXCEPT !.f = [g \in Fields |-> IF g \in flds THEN t.st[g][i] ELSE t.rows[i].f[g]]]],
   mask |-> t.mask, st |-> [g \in DOMAIN t.st \ flds |-> t.st[g]]]
Reset(t) == [ResetValues(t, DOMAIN t.st) EXCEPT !.mask = [i \in 1..N(t) |-> TRUE]]

------------------------------------------------------------------------
\* the sum of two tables, as a set of <<row, mask>>
Used(t, discard) == {k \in Keys(t) : ~discard \/ MaskOf(t, k)}
SameIndex(t, u) == N(t) = N(u) /\ \A i \in 1..N(t) : t.rows[i].k = u.rows[i].k
Undecided(t, u, k, ow) ==
  CASE ow = "yes" -> FALSE
    [] ow = "no" -> RowOf(t, k) # RowOf(u, k)
    [] OTHER -> RowOf(t, k) # RowOf(u, k) /\ MaskOf(t, k) /\ MaskOf(u, k)
SumFails(t, u, a) ==
  LET both == Used(t, a.discard) \cap Used(u, a.discard)
  IN \/ (a.merge = "yes" /\ (a.discard \/ ~SameIndex(t, u)))
     \/ (a.merge = "no" /\ both # {})
     \/ \E k \in both : Undecided(t, u, k, a.ow)
SumSet(t, u, a) ==
  LET kt == Used(t, a.discard) ku == Used(u, a.discard)
      row(k) == IF k \notin ku THEN RowOf(t, k) ELSE IF k \notin kt THEN RowOf(u, k)
                ELSE IF a.ow # "yes" /\ MaskOf(t, k) /\ ~MaskOf(u, k) THEN RowOf(t, k) ELSE RowOf(u, k)
      msk(k) == (k \in kt /\ MaskOf(t, k)) \/ (k \in ku /\ MaskOf(u, k))
  IN {<<row(k), msk(k)>> : k \in kt \cup ku}
AsSet(t) == {<<t.rows[i], t.mask[i]>> : i \in 1..N(t)}

\* equality, by header key
SameFields(r, s, ig) == /\ \A g \in Fields \ ig : r.f[g] = s.f[g]
                        /\ r.rest = s.rest
EqualTables(t, u, a) ==
  LET kt == {k \in Keys(t) : ~a.um \/ MaskOf(t, k)} ku == {k \in Keys(u) : ~a.um \/ MaskOf(u, k)}
  IN /\ kt = ku
     /\ (a.cm => (Keys(t) = Keys(u) /\ \A k \in Keys(t) : MaskOf(t, k) = MaskOf(u, k)))
     /\ \A k \in kt : SameFields(RowOf(t, k), RowOf(u, k), Ran(a.ignore))

------------------------------------------------------------------------
\* groups: a set of [name, members]
GroupsOK(t, a, res) ==
  LET at == QueryRows(t, a.q)
      name(i) == [j \in 1..Len(a.flds) |-> t.rows[at[i]].f[a.flds[j]]]
      names == {name(i) : i \in 1..Len(at)}
      memb(i) == IF a.index THEN ToString(i - 1) ELSE t.rows[at[i]].k
  IN /\ {res[i].name : i \in 1..Len(res)} = names
     /\ Len(res) = Cardinality(names)
     /\ \A i \in 1..Len(res) :
          LET m == {j \in 1..Len(at) : name(j) = res[i].name}
          IN Len(res[i].members) = Cardinality(m) /\ Ran(res[i].members) = {memb(j) : j \in m}

\* files: sequences of rows
ActiveRows(t) == LET at == Active(t) IN [i \in 1..Len(at) |-> t.rows[at[i]]]
FileOf(rows) == [rows |-> rows, mask |-> [i \in 1..Len(rows) |-> TRUE], st |-> NoStored]
Conflict(t, rows) == \E i \in 1..N(t) : t.mask[i] /\ \E j \in 1..Len(rows) : rows[j].k = t.rows[i].k /\ rows[j] # t.rows[i]
NewRows(t, rows) ==
  LET fk == {rows[j].k : j \in 1..Len(rows)}
      at == Picked(N(t), LAMBDA i : t.mask[i] /\ t.rows[i].k \notin fk)
  IN [i \in 1..Len(at) |-> t.rows[at[i]]]
=============================================================================
