------------------------------ MODULE Together ------------------------------
(***************************************************************************)
(* Pieces of work done in one process, each with readers, writers and sets *)
(* of its own.  What a piece of work gives depends on its own parameters   *)
(* and rows only; never on what else is being done, or has been done.      *)
(*                                                                         *)
(* A job is [kind, rows, a, b, r, k, c]: rows a sequence of <<n, g, d>>    *)
(* (the number of the row, its group and its day), and parameters:         *)
(* days a to b, rows not of group r, the first k, by column c.  What it gives is a      *)
(* sequence of <<label, numbers>>.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

N(rows) == [i \in 1..Len(rows) |-> rows[i][1]]
Chosen(j, rows) == SelectSeq(rows, LAMBDA x : x[2] # j.r)
OfGroup(rows, g) == SelectSeq(rows, LAMBDA x : x[2] = g)
OfDay(rows, d) == SelectSeq(rows, LAMBDA x : x[3] = d)
RECURSIVE Days(_, _, _)
Days(rows, a, b) == IF a > b THEN <<>> ELSE OfDay(rows, a) \o Days(rows, a + 1, b)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
First(s, k) == SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OfValue(rows, c, v) == SelectSeq(rows, LAMBDA x : x[c] = v)
ValuesIn(rows, c) == {rows[i][c] : i \in 1..Len(rows)}
GroupsIn(rows) == {rows[i][2] : i \in 1..Len(rows)}
RECURSIVE Ascending(_)
Ascending(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN <<x>> \o Ascending(s \ {x})

Read(j) == N(Chosen(j, Days(j.rows, j.a, j.b)))
Gives(j) ==
    CASE j.kind \in {"batch", "db"} -> << <<0, N(j.rows)>> >>
      [] j.kind = "stream" -> LET gs == Ascending(GroupsIn(j.rows)) IN [i \in 1..Len(gs) |-> <<gs[i], N(OfGroup(j.rows, gs[i]))>>]
      [] j.kind = "group" -> LET rs == Chosen(j, j.rows)
                                 gs == Ascending(ValuesIn(rs, j.c))
                             IN [i \in 1..Len(gs) |-> <<gs[i], <<Len(OfValue(rs, j.c, gs[i])), Total(N(OfValue(rs, j.c, gs[i])))>> >>]
      [] j.kind \in {"read", "sql"} -> << <<0, Read(j)>> >>
      [] j.kind = "resume" -> << <<0, First(Read(j), j.k)>>, <<1, SubSeq(Read(j), j.k + 1, Len(Read(j)))>> >>
      [] j.kind = "grow" -> [d \in 1..3 |-> <<d, N(Chosen(j, OfDay(j.rows, d)))>>]
      [] j.kind = "set" -> << <<0, First(N(Chosen(j, j.rows)), j.k)>> >>
      [] j.kind = "sort" -> << <<0, First(Reverse(N(Chosen(j, j.rows))), j.k)>> >>
      [] j.kind = "valid" -> << <<0, N(SelectSeq(j.rows, LAMBDA x : x[2] # j.r))>> >>
=============================================================================
