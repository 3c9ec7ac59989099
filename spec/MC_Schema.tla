----------------------------- MODULE MC_Schema ------------------------------
(***************************************************************************)
(* Every pair of a schema of two columns (and one expectation) with a row, *)
(* printed with its verdict as a scenario; and laws of the definition.     *)
(***************************************************************************)
EXTENDS Schema, Integers, Sequences, TLC, Json

CONSTANT Types
VARIABLES s, done

Cols == {<<[n |-> "x", ty |-> a, nul |-> p], [n |-> "y", ty |-> b, nul |-> q]>> :
            a \in Types \cup {"ANY"}, b \in {"VARCHAR", "INTEGER"}, p, q \in BOOLEAN}
Vals == Types \cup {"NULL", "MISSING"}
Field(n, ty) == IF ty = "MISSING" THEN <<>> ELSE <<[n |-> n, ty |-> ty, tok |-> ty, num |-> 5, len |-> 3]>>
Rows == {Field("x", a) \o Field("y", b) \o Field("w", c) :
            a \in Vals, b \in {"VARCHAR", "INTEGER", "NULL", "MISSING"}, c \in {"INTEGER", "NULL", "MISSING"}}

Init == s \in [cols : Cols, row : Rows] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, done>>

OK == Acceptable(TRUE, s.cols, <<>>, s.row)

(* making columns nullable never makes a record unacceptable *)
NullableIsWeaker ==
    OK => Acceptable(TRUE, [i \in 1..2 |-> [s.cols[i] EXCEPT !.nul = TRUE]], <<>>, s.row)
(* not asking for a type never does either *)
AnyIsWeaker ==
    OK => Acceptable(TRUE, [i \in 1..2 |-> [s.cols[i] EXCEPT !.ty = "ANY"]], <<>>, s.row)
(* a missing column is never acceptable, whatever the nullability, and neither is another one *)
MissingIsRefused == ~(Has(s.row, "x") /\ Has(s.row, "y")) => ~OK
ExcessIsRefused == Has(s.row, "w") => ~OK
(* the columns decide independently *)
Just(n) == SelectSeq(s.row, LAMBDA f : f.n = n)
Independent ==
    OK <=> /\ SchemaOK(<<s.cols[1]>>, Just("x"))
           /\ SchemaOK(<<s.cols[2]>>, Just("y"))
           /\ Len(s.row) = 2
SomeAccepted == ~(OK /\ \E i \in 1..2 : s.row[i].ty = "NULL")

Emit == done => PrintT(ToJson([s |-> s, ok |-> OK]))
=============================================================================
