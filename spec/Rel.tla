--------------------------------- MODULE Rel --------------------------------
(***************************************************************************)
(* Relations: sequences of rows.  A row is a record of values (Values.tla) *)
(* which always has the field "_", so that none is without fields; a field *)
(* a row doesn't have is null.                                             *)
(***************************************************************************)
EXTENDS Values
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Occurs(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Bag(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) : Occurs(a, x) = Occurs(b, x)
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Min2(a, b) == IF a < b THEN a ELSE b

Get(row, f) == IF f \in DOMAIN row THEN row[f] ELSE Null
Project(row, cols) == [c \in RangeOf(cols) \cup {"_"} |-> Get(row, c)]
Without(row, f) == [c \in (DOMAIN row \ {f}) \cup {"_"} |-> Get(row, c)]
ValuesAt(row, cols) == [i \in 1..Len(cols) |-> Get(row, cols[i])]

(* the first of each of the keys *)
Firsts(ks) == SelectSeq([i \in 1..Len(ks) |-> i], LAMBDA i : \A j \in 1..(i - 1) : ks[j] # ks[i])
At(s, is) == [k \in 1..Len(is) |-> s[is[k]]]
Uniq(s) == At(s, Firsts(s))

Distinct(rows, cols) ==
    IF cols = <<>> THEN Uniq(rows)
    ELSE At(rows, Firsts(Map(rows, LAMBDA r : [i \in 1..Len(cols) |-> IF cols[i] \in DOMAIN r THEN r[cols[i]] ELSE <<-1>>])))

Take(rows, n) == SubSeq(rows, 1, Min2(n, Len(rows)))

(* nulls are the lowest *)
KeyLess(x, y) == ~IsNull(y) /\ (IsNull(x) \/ Less(x, y))
Before(x, y, desc) == IF desc THEN KeyLess(y, x) ELSE KeyLess(x, y)
SortedBy(rows, col, desc) == \A i \in 1..(Len(rows) - 1) : ~Before(Get(rows[i + 1], col), Get(rows[i], col), desc)
(* res are the first n of the rows in the order of the column (in any order among equals) *)
IsTop(res, rows, col, n, desc) ==
    /\ Len(res) = Min2(n, Len(rows))
    /\ SortedBy(res, col, desc)
    /\ \A x \in RangeOf(res) : Occurs(res, x) <= Occurs(rows, x)
    /\ res # <<>> => \A x \in RangeOf(rows) : Occurs(rows, x) > Occurs(res, x) =>
                        ~Before(Get(x, col), Get(res[Len(res)], col), desc)

Present(rows, col) == SelectSeq(Map(rows, LAMBDA r : Get(r, col)), LAMBDA v : ~IsNull(v))
RECURSIVE Total(_)
Total(vs) == IF vs = <<>> THEN 0 ELSE Head(vs)[2] + Total(Tail(vs))
Least(vs) == CHOOSE v \in RangeOf(vs) : \A w \in RangeOf(vs) : ~Less(w, v)
Most(vs) == CHOOSE v \in RangeOf(vs) : \A w \in RangeOf(vs) : ~Less(v, w)
(* v is the aggregate; an average is a fraction <<8, p, q>> *)
Aggregate(fn, col, rows) ==
    LET vs == Present(rows, col) IN
    IF fn = "COUNT" THEN <<2, 1000 * (IF col = "*" THEN Len(rows) ELSE Len(vs))>>
    ELSE IF vs = <<>> THEN Null
    ELSE CASE fn = "SUM" -> <<2, Total(vs)>>
           [] fn = "MIN" -> Least(vs)
           [] fn = "MAX" -> Most(vs)
           [] fn = "AVG" -> <<8, Total(vs), Len(vs)>>
(* v is the number w: an average is the fraction <<8, p, q>>, in w of thousandths *)
SameNumber(v, w) == IF Kind(w) = 8 THEN Kind(v) = 8 /\ v[2] * 1000 * w[3] = w[2] * v[3] ELSE v = w
AggName(a) == a[1] \o "(" \o a[2] \o ")"

Keys(rows, by) == RangeOf(Map(rows, LAMBDA r : ValuesAt(r, by)))
InGroup(rows, by, key) == SelectSeq(rows, LAMBDA r : ValuesAt(r, by) = key)

(* res is the grouping of the rows with the aggregates [fn, column, name], in any order *)
IsGrouping(res, rows, by, aggs) ==
    LET names == {aggs[k][3] : k \in 1..Len(aggs)}
        ks == Map(res, LAMBDA r : ValuesAt(r, by))
    IN /\ RangeOf(ks) = Keys(rows, by) /\ Len(ks) = Cardinality(RangeOf(ks))
       /\ \A i \in 1..Len(res) :
            /\ DOMAIN res[i] = {"_"} \cup RangeOf(by) \cup names
            /\ LET g == InGroup(rows, by, ks[i]) IN
               \A k \in 1..Len(aggs) : SameNumber(res[i][aggs[k][3]], Aggregate(aggs[k][1], aggs[k][2], g))

(* the operations which give another set *)
Step(o, rows) ==
    CASE o.k = "select" -> Map(rows, LAMBDA r : Project(r, o.cols))
      [] o.k = "all" -> rows
      [] o.k = "filter" -> SelectSeq(rows, LAMBDA r : LET x == Get(r, o.f) IN ~IsNull(x) /\ Compare(o.c, x, o.v))
      [] o.k = "distinct" -> Distinct(rows, o.cols)
      [] o.k = "take" -> Take(rows, o.n)
RECURSIVE Chain(_, _)
Chain(os, rows) == IF os = <<>> THEN rows ELSE Chain(Tail(os), Step(Head(os), rows))

(* names in the order they are first in a row *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
InOrder(e, names) == Uniq(Flat(IF e.n = 0 THEN names ELSE Take(names, e.n)))

KindName(v) == CASE Kind(v) = 1 -> "bool" [] Kind(v) = 3 -> "str" [] OTHER -> "number"

(* a is the variance <<8, p, q>> of the numbers xs (a sample): n * the squares - the square of the sum, over n * (n - 1) *)
RECURSIVE SumOf(_)
SumOf(xs) == IF xs = <<>> THEN 0 ELSE Head(xs) + SumOf(Tail(xs))
IsVariance(a, xs) ==
    LET n == Len(xs)
        s == SumOf(xs)
        d == n * SumOf(Map(xs, LAMBDA x : x * x)) - s * s
    IN /\ a[1] = 8 /\ a[3] <= n * (n - 1) /\ a[2] <= d
       /\ a[2] * n * (n - 1) = d * a[3]

(* the operations which give an answer *)
Answer(e, rows, a) ==
    CASE e.k = "list" -> a = rows
      [] e.k = "column" -> a = Map(SelectSeq(rows, LAMBDA r : e.f \in DOMAIN r), LAMBDA r : r[e.f])
      [] e.k = "keys" -> LET rs == IF e.n = 0 THEN rows ELSE Take(rows, e.n) IN
                         /\ RangeOf(a) = UNION {DOMAIN r : r \in RangeOf(rs)} \ {"_"}
                         /\ Len(a) = Cardinality(RangeOf(a))
      [] e.k = "count" -> a = Len(rows) \/ (e.maybe = 1 /\ a = -1)
      [] e.k = "first" -> a = Take(rows, 1)
      [] e.k = "min" -> a = Least(Present(rows, e.f))
      [] e.k = "max" -> a = Most(Present(rows, e.f))
      [] e.k = "min_max" -> a = <<Least(Present(rows, e.f)), Most(Present(rows, e.f))>>
      [] e.k = "sum" -> a = <<2, Total(Present(rows, e.f))>>
      [] e.k = "mean" -> SameNumber(a, Aggregate("AVG", e.f, rows))
      [] e.k \in {"variance", "deviation"} -> IsVariance(a, Map(Present(rows, e.f), LAMBDA v : v[2] \div 1000))
      \* a frame has a column for each name; missing values and nulls are the same in it
      [] e.k = "pandas" -> /\ RangeOf(a.cols) = UNION {DOMAIN r : r \in RangeOf(rows)} \ {"_"} /\ Len(a.cols) = Cardinality(RangeOf(a.cols))
                           /\ a.rows = Map(rows, LAMBDA r : [c \in {x \in DOMAIN r : ~IsNull(r[x])} \cup {"_"} |-> r[c]])
      [] e.k = "sort" -> IsTop(a, rows, e.f, e.n, e.desc = 1)
      [] e.k = "items" -> LET w == At(rows, Map(e.at, LAMBDA i : i + 1)) IN IF Ascending(e.at) THEN a = w ELSE Bag(a, w)
      [] e.k = "sample" -> \E is \in SUBSET (1..Len(rows)) : a = At(rows, SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i : i \in is))
      [] e.k = "hash" -> a = <<TRUE, TRUE>>
      [] e.k = "group" -> IsGrouping(a, rows, e.by, e.aggs)
      [] e.k = "groups" -> IsGrouping(a, rows, e.by, <<>>)
      [] e.k = "sets" -> LET ks == Map(a, LAMBDA g : g.key) IN
                         /\ RangeOf(ks) = RangeOf(Map(rows, LAMBDA r : Get(r, e.f))) /\ Len(ks) = Cardinality(RangeOf(ks))
                         /\ \A i \in 1..Len(a) :
                              LET rs == SelectSeq(rows, LAMBDA r : Get(r, e.f) = a[i].key)
                                  ws == Map(IF e.dedupe = 1 THEN Uniq(rs) ELSE rs, LAMBDA r : Without(r, e.f))
                              IN a[i].rows = IF e.dedupe = 1 THEN Uniq(ws) ELSE ws
      [] e.k = "types" -> LET rs == Take(rows, e.n) IN
                          /\ RangeOf(Map(a, LAMBDA x : x[1])) = UNION {DOMAIN r : r \in RangeOf(rs)} \ {"_"}
                          /\ \A i \in 1..Len(a) :
                               LET ks == RangeOf(Map(Present(rs, a[i][1]), KindName)) IN
                               a[i][2] = IF ks = {} THEN "empty" ELSE IF Cardinality(ks) = 1 THEN (CHOOSE k \in ks : TRUE) ELSE "mixed"
=============================================================================
