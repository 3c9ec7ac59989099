-------------------------------- MODULE Sql --------------------------------
(***************************************************************************)
(* Statements over a table: their clauses and the relational meaning.      *)
(* q: sel (items [fn, col, name]; fn "" is the column itself), star,       *)
(* distinct, from (<<>> the table, <<q>> a sub-query), where and having    *)
(* (<<>> or <<[tree, atoms]>>), by, order (<<>> or <<[f, desc]>>), limit   *)
(* (-1 is none).                                                           *)
(***************************************************************************)
EXTENDS Rel, Integers, Sequences, FiniteSets, TLC
E == INSTANCE Expr

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
(* an average of thousandths as a fraction in its lowest terms *)
Lowest(v) == IF Kind(v) # 8 THEN v
             ELSE LET p == v[2]
                      q == 1000 * v[3]
                      g == Gcd(Abs(p), q)
                  IN <<8, IF p < 0 THEN -(Abs(p) \div g) ELSE p \div g, q \div g>>

AggNameOf(i) == i.fn \o "(" \o i.col \o ")"
Aggs(q) == SelectSeq(q.sel, LAMBDA i : i.fn # "")
Grouped(q) == q.by # <<>> \/ Aggs(q) # <<>>

Filter(w, rows) == IF w = <<>> THEN rows ELSE SelectSeq(rows, LAMBDA r : E!ExprTrue(w[1].tree, w[1].atoms, r))

GroupRow(q, g) ==
    LET names == {AggNameOf(i) : i \in RangeOf(Aggs(q))} IN
    [c \in {"_"} \cup RangeOf(q.by) \cup names |->
        IF c \in names THEN LET i == CHOOSE x \in RangeOf(Aggs(q)) : AggNameOf(x) = c IN Lowest(Aggregate(i.fn, i.col, g))
        ELSE IF c = "_" THEN Null ELSE Get(g[1], c)]
Group(q, rows) ==
    IF ~Grouped(q) THEN rows
    ELSE IF q.by = <<>> THEN <<GroupRow(q, rows)>>
    ELSE LET heads == At(rows, Firsts(Map(rows, LAMBDA r : ValuesAt(r, q.by)))) IN
         Map(heads, LAMBDA h : GroupRow(q, InGroup(rows, q.by, ValuesAt(h, q.by))))

Source(i) == IF i.fn = "" THEN i.col ELSE AggNameOf(i)
Select(q, rows) ==
    IF q.star = 1 THEN rows
    ELSE Map(rows, LAMBDA r : [c \in {"_"} \cup {i.name : i \in RangeOf(q.sel)} |->
                IF c = "_" THEN Null ELSE Get(r, Source(CHOOSE i \in RangeOf(q.sel) : i.name = c))])
Dedupe(q, rows) == IF q.distinct = 1 THEN Uniq(rows) ELSE rows
Sort(q, rows) == IF q.order = <<>> THEN rows
                 ELSE LET o == q.order[1] IN SortSeq(rows, LAMBDA x, y : Before(Get(x, o.f), Get(y, o.f), o.desc = 1))
Limit(q, rows) == IF q.limit < 0 THEN rows ELSE Take(rows, q.limit)

(* before the order and the limit *)
RECURSIVE Rows(_, _), Eval(_, _)
Rows(q, table) ==
    LET base == IF q.from = <<>> THEN table ELSE Eval(q.from[1], table) IN
    Dedupe(q, Select(q, Filter(q.having, Group(q, Filter(q.where, base)))))
(* one of the answers *)
Eval(q, table) == Limit(q, Sort(q, Rows(q, table)))

(* res is an answer: what isn't defined is free *)
IsAnswer(res, q, table) ==
    LET rows == Rows(q, table)
        n == IF q.limit < 0 THEN Len(rows) ELSE q.limit
    IN IF q.order # <<>> THEN IsTop(res, rows, q.order[1].f, n, q.order[1].desc = 1)
       ELSE Len(res) = Min2(n, Len(rows)) /\ \A x \in RangeOf(res) : Occurs(res, x) <= Occurs(rows, x)
=============================================================================
