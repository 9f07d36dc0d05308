------------------------------ MODULE MQSchema ------------------------------
(***************************************************************************)
(* The models the gorm adapter is driven with (harness/internal/model),    *)
(* how names of a query refer to them, and what a row of them looks like   *)
(* together with its related rows.                                         *)
(***************************************************************************)
EXTENDS MQSem

F(f, c) == [f |-> T(f), c |-> T(c)]          \* field and column; no column: ""
(* A relation: name, model, own column, column of the related model; those *)
(* to many rows cannot be joined without repeating rows.                   *)
(* Some hold only of rows that have a certain text in a column.            *)
R(n, m, own, other) == [n |-> T(n), m |-> m, own |-> T(own), other |-> T(other), many |-> FALSE, only |-> <<>>]
Having(r, c, s) == [r EXCEPT !.only = << T(c), T(s) >>]
Many(n, m, own, other) == [R(n, m, own, other) EXCEPT !.many = TRUE]

Models == [
  items |-> [table |-> T("items"),
    fields |-> << F("ID","id"), F("I","i"), F("J","j"), F("S","s"), F("T","t"), F("B","b"), F("C","c"), F("D","d") >>,
    rels |-> <<>>],
  notes |-> [table |-> T("notes"),
    fields |-> << F("ID","id"), F("I","i"), F("J","j"), F("S","s"), F("T","t"), F("DeletedAt","deleted_at") >>,
    rels |-> <<>>],
  persons |-> [table |-> T("people"),
    fields |-> << F("ID","id"), F("CreatedBy","created_by"), F("Name","title"), F("Title","name"), F("NickName","nick_name"),
                  F("Label","NickName"), F("Code","code_a"), F("CODE","code_b"), F("Note","Dept"), F("Hidden",""),
                  F("City","addr_city"), F("Street","addr_STREET"), F("BossID","boss_id"), F("Boss",""),
                  F("DeptID","dept_id"), F("Dept",""), F("Badge",""), F("Seal",""), F("TownID","town_id"), F("Town",""),
                  F("Awards",""), F("Staff",""), F("Clubs","") >>,
    rels |-> << R("Boss","persons","boss_id","id"), R("Dept","depts","dept_id","id"), R("Badge","badges","id","person_id"),
                Having(R("Seal","seals","id","owner_id"), "owner_type", "people"),
                R("Town","depts","town_id","id"), Many("Awards","awards","id","person_id"), Many("Staff","persons","id","boss_id"),
                Many("Clubs","depts","id","id") >>],
  \* another type of the same name and table, with other names for its columns
  others |-> [table |-> T("people"),
    fields |-> << F("ID","id"), F("Street","created_by"), F("Title","title"), F("Name","name"), F("Label","nick_name"),
                  F("NickName","NickName"), F("CODE","code_a"), F("Code","code_b"), F("City","Dept"), F("Note","addr_city"),
                  F("Hidden","addr_STREET"), F("DeptID","boss_id"), F("Dept",""), F("BossID","dept_id"), F("Boss",""), F("Badge",""),
                  F("LandID","town_id"), F("Awards",""), F("Town","") >>,
    rels |-> << R("Dept","others","boss_id","id"), R("Boss","depts","dept_id","id"), R("Badge","badges","id","person_id"),
                R("Awards","depts","town_id","id"), Many("Town","awards","id","person_id") >>],
  depts |-> [table |-> T("depts"),
    fields |-> << F("ID","id"), F("Name","name"), F("Title","dept_title"), F("City","city"), F("HeadID","head_id") >>,
    rels |-> <<>>],
  badges |-> [table |-> T("badges"),
    fields |-> << F("ID","id"), F("PersonID","person_id"), F("Name","name"), F("Secret",""), F("DeletedAt","deleted_at") >>,
    rels |-> <<>>],
  seals |-> [table |-> T("seals"),
    fields |-> << F("ID","id"), F("OwnerID","owner_id"), F("OwnerType","owner_type"), F("Name","name") >>,
    rels |-> <<>>],
  awards |-> [table |-> T("awards"),
    fields |-> << F("ID","id"), F("PersonID","person_id"), F("Name","name") >>,
    rels |-> <<>>] ]

(* The columns of a model in order. *)
ColumnsOf(m) == LET fs == SelectSeq(Models[m].fields, LAMBDA f : f.c # <<>>) IN [i \in 1..Len(fs) |-> fs[i].c]
Columns == TLCEval([m \in DOMAIN Models |-> ColumnsOf(m)])

(* ----------------------------- resolution ------------------------------ *)
(* The columns a plain name can refer to: the column of that name, else    *)
(* the field of that name, else the fields that differ in letter case.     *)
Candidates(m, n) ==
  LET fs == Models[m].fields
      with(S) == { fs[i].c : i \in S }
      cols == { i \in 1..Len(fs) : fs[i].c # <<>> }
      a == { i \in cols : fs[i].c = n }
      b == { i \in cols : fs[i].f = n }
      c == { i \in cols : LowerSeq(fs[i].f) = LowerSeq(n) } IN
  IF a # {} THEN with(a) ELSE IF b # {} THEN with(b) ELSE with(c)

RelationOf(m, n) == { r \in 1..Len(Models[m].rels) : Models[m].rels[r].n = n /\ ~Models[m].rels[r].many }

(* The paths a name or path of names can refer to; none: it is an error.   *)
PathsOf(m, ns) ==
  IF Len(ns) = 1 THEN { <<c>> : c \in Candidates(m, ns[1]) }
  ELSE IF Len(ns) = 2 THEN
    UNION { { <<ns[1], c>> : c \in Candidates(Models[m].rels[r].m, ns[2]) } : r \in RelationOf(m, ns[1]) }
  ELSE {}

(* The names used by a tree, as paths. *)
RECURSIVE NamesUsed(_)
NamesUsed(n) ==
  CASE n.t = "id" -> {<<n.n>>}
    [] n.t = "ref" -> {n.ns}
    [] OTHER -> LET c == Children(n) IN UNION { NamesUsed(c[i]) : i \in 1..Len(c) }

RECURSIVE FunctionsUsed(_)
FunctionsUsed(n) ==
  (IF n.t = "fn" THEN {n.n} ELSE {}) \cup LET c == Children(n) IN UNION { FunctionsUsed(c[i]) : i \in 1..Len(c) }

(* Everything known and supported?  Ambiguous: a name with two meanings.   *)
Known(m, n) == /\ \A ns \in NamesUsed(n) : PathsOf(m, ns) # {}
               /\ FunctionsUsed(n) \subseteq {W_date}
Ambiguous(m, n) == \E ns \in NamesUsed(n) : Cardinality(PathsOf(m, ns)) > 1

(* The tree with every name replaced by the path of its column. *)
RECURSIVE Resolve(_,_)
Resolve(m, n) ==
  CASE n.t = "id" -> MkRef(CHOOSE p \in PathsOf(m, <<n.n>>) : TRUE)
    [] n.t = "ref" -> MkRef(CHOOSE p \in PathsOf(m, n.ns) : TRUE)
    [] n.t = "fn" -> MkFn(n.n, [i \in 1..Len(n.p) |-> Resolve(m, n.p[i])])
    [] n.t \in {"cmp", "log"} -> [n EXCEPT !.l = Resolve(m, @), !.r = Resolve(m, @)]
    [] n.t \in {"prd", "btw"} -> [n EXCEPT !.l = Resolve(m, @)]
    [] n.t \in {"par", "not"} -> [n EXCEPT !.e = Resolve(m, @)]
    [] OTHER -> n

(* Joining some relations binds a value of its own. *)
BindsMore(m, n) == \E ns \in NamesUsed(n) : Len(ns) > 1 /\ \E r \in RelationOf(m, ns[1]) : Models[m].rels[r].only # <<>>
UsesRelation(n) == \E ns \in NamesUsed(n) : Len(ns) > 1

(* -------------------------------- rows --------------------------------- *)
(* A content of the database: model -> [rows |-> rows of values in column  *)
(* order].                                                                 *)
IndexOf(cols, c) == CHOOSE i \in 1..Len(cols) : cols[i] = c
CellOf(m, row, c) == row[IndexOf(Columns[m], c)]

(* Rows of some models stay in their table when they are deleted; nobody   *)
(* sees them then, nor as related rows.                                    *)
Kept == TLCEval({ m \in DOMAIN Models : \E i \in 1..Len(Columns[m]) : Columns[m][i] = T("deleted_at") })
Gone(m, row) == m \in Kept /\ CellOf(m, row, T("deleted_at")).t # "null"

Related(data, m, row, rel) ==
  LET key == CellOf(m, row, rel.own)
      rows == data[rel.m].rows IN
  { i \in 1..Len(rows) : /\ key.t # "null" /\ CellOf(rel.m, rows[i], rel.other) = key
                         /\ ~Gone(rel.m, rows[i])
                         /\ rel.only = <<>> \/ CellOf(rel.m, rows[i], rel.only[1]) = MkStr(rel.only[2]) }

NullRow(m) == [i \in 1..Len(Columns[m]) |-> MkNull]

(* path -> value; a missing related row is all NULL.  Models are related   *)
(* to at most one row per relation.                                        *)
RowEnv(data, m, row) ==
  LET rels == SelectSeq(Models[m].rels, LAMBDA r : ~r.many)
      other(r) == LET s == Related(data, m, row, rels[r]) IN
                  IF s = {} THEN NullRow(rels[r].m) ELSE data[rels[r].m].rows[CHOOSE i \in s : TRUE]
      own == { <<c>> : c \in { Columns[m][i] : i \in 1..Len(Columns[m]) } }
      rel == UNION { { <<rels[r].n, c>> : c \in { Columns[rels[r].m][i] : i \in 1..Len(Columns[rels[r].m]) } } : r \in 1..Len(rels) }
      relOf(p) == CHOOSE r \in 1..Len(rels) : rels[r].n = p[1]
  IN TLCEval([p \in own \cup rel |->
       IF Len(p) = 1 THEN CellOf(m, row, p[1])
       ELSE CellOf(rels[relOf(p)].m, other(relOf(p)), p[2])])

IdOf(m, row) == CellOf(m, row, T("id"))
=============================================================================
