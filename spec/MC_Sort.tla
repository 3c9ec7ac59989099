------------------------------- MODULE MC_Sort -------------------------------
(***************************************************************************)
(* The design of sort_and_take: rows are collected, and as soon as there   *)
(* are more than twice as many as wanted, sorted and cut.                  *)
(***************************************************************************)
EXTENDS Rel, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, MaxRows, MaxTake

Vals == {Null, <<2, 0>>, <<2, 1000>>}
VARIABLES rows, n, desc, pos, cache
vars == <<rows, n, desc, pos, cache>>

SeqsOf(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
RowsOf(vs) == [i \in 1..Len(vs) |-> [_ |-> Null, a |-> vs[i]]]

BLess(x, y) == IF BUG = "nulls" /\ desc THEN (IF IsNull(x) \/ IsNull(y) THEN IsNull(x) /\ ~IsNull(y) ELSE Less(y, x)) ELSE Before(x, y, desc)
RECURSIVE Insert(_, _)
Insert(s, r) == IF s = <<>> THEN <<r>>
                ELSE IF BLess(r.a, s[Len(s)].a) THEN Insert(SubSeq(s, 1, Len(s) - 1), r) \o <<s[Len(s)]>> ELSE s \o <<r>>
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Most2 == IF BUG = "smallcache" THEN 1 ELSE (IF n * 2 > 1 THEN n * 2 ELSE 1) + 1
Cut(s) == Take(IF BUG = "unsorted" THEN s ELSE Sort(s), IF BUG = "smallcache" THEN 1 ELSE n)

Init == rows \in {RowsOf(vs) : vs \in SeqsOf(Vals, 0, MaxRows)} /\ n \in 0..MaxTake /\ desc \in BOOLEAN /\ pos = 0 /\ cache = <<>>
Next == /\ pos < Len(rows)
        /\ LET c == Append(cache, rows[pos + 1]) IN cache' = IF Len(c) > Most2 THEN Cut(c) ELSE c
        /\ pos' = pos + 1
        /\ UNCHANGED <<rows, n, desc>>
Spec == Init /\ [][Next]_vars

Contract == pos = Len(rows) => IsTop(Take(Sort(cache), n), rows, "a", n, desc)
Emit == pos = Len(rows) => PrintT(ToJson([rows |-> rows, n |-> n, desc |-> IF desc THEN 1 ELSE 0]))
=============================================================================
