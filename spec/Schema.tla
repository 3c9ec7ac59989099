------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* When a record is acceptable.                                            *)
(*                                                                         *)
(* A column is [n: name, ty: type, nul: may be null]; a column which was   *)
(* only named, not typed, is of type "ANY".  A row is a sequence           *)
(* of fields [n: name, ty: the type of the value ("NULL" for null), tok: a *)
(* name for the value, num: the value if a number, len: its length if a    *)
(* text].  An expectation is [k: kind, col, toks, lo, hi].                 *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

FieldsOf(row, n) == {i \in 1..Len(row) : row[i].n = n}
Has(row, n) == FieldsOf(row, n) # {}
Get(row, n) == row[CHOOSE i \in FieldsOf(row, n) : TRUE]
Null(row, n) == ~Has(row, n) \/ Get(row, n).ty = "NULL"

ColumnOK(col, row) ==
    /\ Has(row, col.n)
    /\ LET v == Get(row, col.n) IN IF v.ty = "NULL" THEN col.nul ELSE col.ty = "ANY" \/ v.ty = col.ty

(* a schema names all of the fields of a record *)
NoExcess(cols, row) == \A i \in 1..Len(row) : \E j \in 1..Len(cols) : cols[j].n = row[i].n

SchemaOK(cols, row) ==
    /\ \A i \in 1..Len(cols) : ColumnOK(cols[i], row)
    /\ NoExcess(cols, row)

ExpectationOK(e, row) ==
    CASE e.k = "exists"  -> Has(row, e.col)
      [] e.k = "notnull" -> ~Null(row, e.col)
      [] e.k = "inset"   -> Null(row, e.col) \/ \E i \in 1..Len(e.toks) : e.toks[i] = Get(row, e.col).tok
      [] e.k = "between" -> Null(row, e.col) \/ (e.lo <= Get(row, e.col).num /\ Get(row, e.col).num <= e.hi)
      [] e.k = "length"  -> Null(row, e.col) \/ (e.lo <= Get(row, e.col).len /\ Get(row, e.col).len <= e.hi)

(* the schema can be explicitly absent *)
Acceptable(hasSchema, cols, exps, row) ==
    /\ hasSchema => SchemaOK(cols, row)
    /\ \A i \in 1..Len(exps) : ExpectationOK(exps[i], row)
=============================================================================
