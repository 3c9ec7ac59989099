------------------------------ MODULE MC_Group -------------------------------
(***************************************************************************)
(* The design of grouping: one pass over the rows, keeping for every group *)
(* only the last known value of every aggregate; averages are made of a    *)
(* sum and a count.  What is left at the end is the grouping of the rows.  *)
(* Prints rows and aggregates for replay.                                  *)
(***************************************************************************)
EXTENDS Rel, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, MaxRows, MaxAggs

T(s) == <<3>> \o s
Groups == {<<T(<<97>>), T(<<98, 99>>)>>, <<T(<<97, 98>>), T(<<99>>)>>, <<Null, T(<<>>)>>}
Vals == {Null, <<2, -1000>>, <<2, 0>>, <<2, 1000>>}
Rows == {[_ |-> Null, g |-> k[1], h |-> k[2], v |-> x] : k \in Groups, x \in Vals}
By == <<"g", "h">>
Aggs == {<<"COUNT", "*", "COUNT(*)">>, <<"COUNT", "v", "COUNT(v)">>, <<"SUM", "v", "SUM(v)">>, <<"MIN", "v", "MIN(v)">>,
         <<"MAX", "v", "MAX(v)">>, <<"AVG", "v", "AVG(v)">>}

VARIABLES rows, aggs, pos, coll, firstrow
vars == <<rows, aggs, pos, coll, firstrow>>

NoRepeat(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
SeqsOf(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

(* averages are replaced by what they are made of *)
RECURSIVE Work(_)
Work(as) == IF as = <<>> THEN <<>>
            ELSE (IF Head(as)[1] = "AVG" THEN <<<<"SUM", "v", "SUM(v)">>, <<"COUNT", "v", "COUNT(v)">>>> ELSE <<Head(as)>>) \o Work(Tail(as))
ToDo == IF BUG = "double" THEN Work(aggs) ELSE Uniq(Work(aggs))

KeyOf(r) == IF BUG = "joined" THEN Tail(r.g) \o Tail(r.h) ELSE ValuesAt(r, By)
Known(c, k, n) == k \in DOMAIN c /\ n \in DOMAIN c[k] /\ (BUG = "falsy" => c[k][n][2] # 0)
Put(c, k, n, x) == LET row == IF k \in DOMAIN c THEN c[k] ELSE [z \in {} |-> Null]
                       row2 == [z \in DOMAIN row \cup {n} |-> IF z = n THEN x ELSE row[z]]
                   IN [z \in DOMAIN c \cup {k} |-> IF z = k THEN row2 ELSE c[z]]
One(c, k, a, x) ==
    IF a[1] = "COUNT" THEN Put(c, k, a[3], <<2, IF Known(c, k, a[3]) THEN c[k][a[3]][2] + 1000 ELSE 1000>>)
    ELSE IF ~Known(c, k, a[3]) THEN Put(c, k, a[3], x)
    ELSE LET y == c[k][a[3]][2] IN
         Put(c, k, a[3], <<2, CASE a[1] = "SUM" -> y + x[2] [] a[1] = "MIN" -> IF x[2] < y THEN x[2] ELSE y [] a[1] = "MAX" -> IF x[2] > y THEN x[2] ELSE y>>)
RECURSIVE Through(_, _, _)
Through(c, r, as) ==
    IF as = <<>> THEN c
    ELSE LET a == Head(as)
             x == IF a[2] = "*" THEN <<2, 1000>> ELSE Get(r, a[2])
         IN Through(IF IsNull(x) THEN c ELSE One(c, KeyOf(r), a, x), r, Tail(as))

Init == /\ rows \in SeqsOf(Rows, 0, MaxRows)
        /\ aggs \in {s \in SeqsOf(Aggs, 1, MaxAggs) : NoRepeat(s)}
        /\ pos = 0 /\ coll = [z \in {} |-> Null] /\ firstrow = [z \in {} |-> 0]
Next == /\ pos < Len(rows)
        /\ pos' = pos + 1
        /\ coll' = Through(coll, rows[pos + 1], ToDo)
        /\ firstrow' = IF KeyOf(rows[pos + 1]) \in DOMAIN firstrow THEN firstrow
                       ELSE [k \in DOMAIN firstrow \cup {KeyOf(rows[pos + 1])} |-> IF k \in DOMAIN firstrow THEN firstrow[k] ELSE pos + 1]
        /\ UNCHANGED <<rows, aggs>>
Spec == Init /\ [][Next]_vars

Final(k, a) == LET c == IF k \in DOMAIN coll THEN coll[k] ELSE [z \in {} |-> Null] IN
               IF a[1] = "AVG" THEN (IF "COUNT(v)" \in DOMAIN c THEN <<8, c["SUM(v)"][2], c["COUNT(v)"][2]>> ELSE Null)
               ELSE IF a[3] \in DOMAIN c THEN c[a[3]] ELSE IF a[1] = "COUNT" THEN <<2, 0>> ELSE Null
Result == LET ks == IF BUG = "lost" THEN DOMAIN coll ELSE DOMAIN firstrow IN
          {[f \in {"_", "g", "h"} \cup {aggs[i][3] : i \in 1..Len(aggs)} |->
              IF f \in {"_", "g", "h"} THEN rows[firstrow[k]][f] ELSE Final(k, aggs[CHOOSE i \in 1..Len(aggs) : aggs[i][3] = f])] : k \in ks}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Contract == pos = Len(rows) => IsGrouping(SeqOf(Result), rows, By, aggs)
Emit == (pos = Len(rows) /\ rows # <<>>) => PrintT(ToJson([rows |-> rows, aggs |-> aggs]))
=============================================================================
