------------------------------- MODULE MC_Sql -------------------------------
(***************************************************************************)
(* The design of the SQL reader: a statement is words; a parser goes over  *)
(* them once, collecting each clause up to the next keyword outside of     *)
(* quotes, and a sub-query up to its closing parenthesis; the clauses are  *)
(* then applied in stages.  What comes out is an answer to the query.      *)
(* Prints queries for replay.                                   *)
(***************************************************************************)
EXTENDS Sql, Json

CONSTANTS BUG, MaxRows, Deep

VARIABLES query, table, words, at, got, stage, rows
vars == <<query, table, words, at, got, stage, rows>>

Col(c, n) == [fn |-> "", col |-> c, name |-> n]
Agg(f, c) == [fn |-> f, col |-> c, name |-> f \o "(" \o c \o ")"]
Cmp(f, o, v) == [x |-> [k |-> "f", f |-> f, v |-> Null], y |-> [k |-> "v", f |-> "", v |-> v], ys |-> <<>>, o |-> o]
Cond(a) == <<[tree |-> <<"atom", 1>>, atoms |-> <<a>>]>>
Num(n) == <<2, 1000 * n>>

Plain == [sel |-> <<Col("a", "a")>>, star |-> 0, distinct |-> 0, from |-> <<>>, where |-> <<>>, by |-> <<>>, having |-> <<>>, order |-> <<>>, limit |-> -1]
Order(f) == {<<>>} \cup {<<[f |-> f, desc |-> d]>> : d \in 0..1}
Wheres == {<<>>, Cond(Cmp("a", ">", Num(0)))}
Limits == {-1, 0, 1, 2}
Listing(sources) ==
    {[Plain EXCEPT !.sel = s, !.distinct = d, !.from = f, !.where = w, !.order = o, !.limit = l] :
        s \in {<<Col("a", "a")>>, <<Col("b", "a"), Col("a", "b")>>}, d \in 0..1, f \in sources, w \in Wheres, o \in Order("a"), l \in Limits}
    \cup {[Plain EXCEPT !.sel = <<>>, !.star = 1, !.from = f, !.where = w, !.order = o, !.limit = l] : f \in sources, w \in Wheres, o \in Order("b"), l \in Limits}
Grouping(sources) ==
    {[Plain EXCEPT !.sel = s, !.by = <<"a">>, !.from = f, !.where = w, !.having = h, !.order = o, !.limit = l] :
        s \in {<<Col("a", "x"), Agg("COUNT", "*")>>, <<Agg("COUNT", "*"), Agg("SUM", "b")>>}, f \in sources, w \in Wheres,
        h \in {<<>>, Cond(Cmp("COUNT(*)", ">", Num(1)))}, o \in Order("COUNT(*)"), l \in Limits}
    \cup {[Plain EXCEPT !.sel = <<Agg("COUNT", "b"), Agg("MIN", "a")>>, !.from = f, !.where = w, !.limit = l] : f \in sources, w \in Wheres, l \in Limits}
Inner == {[Plain EXCEPT !.sel = <<Col("a", "a"), Col("b", "b")>>, !.where = w] : w \in {<<>>, Cond(Cmp("b", "<>", Num(1)))}}
         \cup {[Plain EXCEPT !.sel = <<Col("a", "a"), [fn |-> "COUNT", col |-> "b", name |-> "b"]>>, !.by = <<"a">>]}
Inner2 == {[Plain EXCEPT !.sel = <<Col("b", "a"), Col("a", "b")>>, !.from = <<q>>, !.where = w] : q \in Inner, w \in Wheres}
Sources == {<<>>} \cup {<<q>> : q \in Inner} \cup (IF Deep THEN {<<q>> : q \in Inner2} ELSE {})
Queries == Listing(Sources) \cup Grouping(Sources)

Cells == {Null, Num(0), Num(1)}
Tables == UNION {[1..n -> {[_ |-> Null, a |-> x, b |-> y] : x \in Cells, y \in {Num(0), Num(1)}}] : n \in 0..MaxRows}

(* the words of a statement: keywords, parentheses, and clauses, of which a *)
(* condition has a quoted text with a keyword in it                         *)
RECURSIVE WordsOf(_)
WordsOf(q) ==
    <<[w |-> "SELECT"]>> \o (IF q.distinct = 1 THEN <<[w |-> "DISTINCT"]>> ELSE <<>>) \o <<[w |-> "sel", v |-> <<q.sel, q.star>>]>>
    \o <<[w |-> "FROM"]>> \o (IF q.from = <<>> THEN <<[w |-> "table"]>> ELSE <<[w |-> "("]>> \o WordsOf(q.from[1]) \o <<[w |-> ")"]>>)
    \o (IF q.where = <<>> THEN <<>> ELSE <<[w |-> "WHERE"], [w |-> "cond", v |-> q.where], [w |-> "quoted LIMIT"]>>)
    \o (IF q.by = <<>> THEN <<>> ELSE <<[w |-> "GROUP BY"], [w |-> "cols", v |-> q.by]>>)
    \o (IF q.having = <<>> THEN <<>> ELSE <<[w |-> "HAVING"], [w |-> "cond", v |-> q.having]>>)
    \o (IF q.order = <<>> THEN <<>> ELSE <<[w |-> "ORDER BY"], [w |-> "col", v |-> q.order[1].f]>> \o (IF q.order[1].desc = 1 THEN <<[w |-> "DESC"]>> ELSE <<>>))
    \o (IF q.limit < 0 THEN <<>> ELSE <<[w |-> "LIMIT"], [w |-> "number", v |-> q.limit]>>)

Keywords == {"SELECT", "DISTINCT", "FROM", "WHERE", "GROUP BY", "HAVING", "ORDER BY", "DESC", "LIMIT"} \cup (IF BUG = "inquotes" THEN {"quoted LIMIT"} ELSE {})

(* where the words of a clause which begins at i end *)
RECURSIVE ClauseEnd(_, _)
ClauseEnd(ws, i) == IF i > Len(ws) \/ ws[i].w \in Keywords THEN i - 1 ELSE ClauseEnd(ws, i + 1)
(* where the parenthesis before i closes *)
RECURSIVE Close(_, _, _)
Close(ws, i, open) ==
    CASE i > Len(ws) -> i
      [] ws[i].w = ")" -> IF open = 1 \/ BUG = "firstparen" THEN i ELSE Close(ws, i + 1, open - 1)
      [] ws[i].w = "(" -> Close(ws, i + 1, open + 1)
      [] OTHER -> Close(ws, i + 1, open)

Blank == [sel |-> <<>>, star |-> 0, distinct |-> 0, from |-> <<>>, where |-> <<>>, by |-> <<>>, having |-> <<>>, order |-> <<>>, limit |-> -1]

(* one step of the parser: <<what it has, where it is>>; 0 is nowhere, the statement is invalid *)
RECURSIVE Parse(_, _, _)
ParseStep(ws, i, q) ==
    LET w == ws[i].w
        e == ClauseEnd(ws, i + 1)
        v == IF e > i THEN ws[i + 1].v ELSE <<>>
    IN CASE w = "SELECT" -> LET k == IF ws[i + 1].w = "DISTINCT" THEN i + 2 ELSE i + 1 IN
                            <<[q EXCEPT !.distinct = k - i - 1, !.sel = ws[k].v[1], !.star = ws[k].v[2]], k + 1>>
         [] w = "FROM" -> IF ws[i + 1].w = "("
                          THEN LET c == Close(ws, i + 2, 1) IN <<[q EXCEPT !.from = <<Parse(SubSeq(ws, i + 2, c - 1), 1, Blank)>>], c + 1>>
                          ELSE <<q, i + 2>>
         [] w = "WHERE" -> <<[q EXCEPT !.where = v], e + 1>>
         [] w = "GROUP BY" -> <<[q EXCEPT !.by = v], e + 1>>
         [] w = "HAVING" -> <<[q EXCEPT !.having = v], e + 1>>
         [] w = "ORDER BY" -> LET d == e < Len(ws) /\ ws[e + 1].w = "DESC" IN
                              <<[q EXCEPT !.order = <<[f |-> v, desc |-> IF d THEN 1 ELSE 0]>>], IF d \/ BUG = "skip" THEN e + 2 ELSE e + 1>>
         [] w = "LIMIT" -> <<[q EXCEPT !.limit = v], e + 1>>
         [] OTHER -> <<q, 0>>
Parse(ws, i, q) == IF i > Len(ws) THEN q
                   ELSE LET s == ParseStep(ws, i, q) IN IF s[2] = 0 THEN [q EXCEPT !.limit = -2] ELSE Parse(ws, s[2], s[1])

Stages == <<"where", "group", "having", "select", "distinct", "order", "limit">>
Order7 == CASE BUG = "limitfirst" -> <<1, 2, 3, 4, 5, 7, 6>>
            [] BUG = "distinctfirst" -> <<1, 2, 3, 5, 4, 6, 7>>
            [] BUG = "havingfirst" -> <<1, 3, 2, 4, 5, 6, 7>>
            [] BUG = "groupfirst" -> <<2, 1, 3, 4, 5, 6, 7>>
            [] OTHER -> <<1, 2, 3, 4, 5, 6, 7>>
Apply(s, q, rs) ==
    CASE s = "where" -> IF BUG = "nosubwhere" /\ q.from # <<>> THEN rs ELSE Filter(q.where, rs)
      [] s = "group" -> Group(q, rs)
      [] s = "having" -> Filter(q.having, rs)
      [] s = "select" -> Select(q, rs)
      [] s = "distinct" -> Dedupe(q, rs)
      [] s = "order" -> Sort(q, rs)
      [] s = "limit" -> Limit(q, rs)
RECURSIVE Staged(_, _, _), Run(_, _)
Staged(k, q, rs) == IF k > 7 THEN rs ELSE Staged(k + 1, q, Apply(Stages[Order7[k]], q, rs))
Run(q, t) == Staged(1, q, IF q.from = <<>> THEN t ELSE Run(q.from[1], t))

Init == query = Blank /\ table = <<>> /\ words = <<>> /\ at = 1 /\ got = Blank /\ stage = -2 /\ rows = <<>>
Store == /\ stage = -2 /\ table' \in Tables /\ stage' = -1 /\ UNCHANGED <<query, words, at, got, rows>>
Ask == /\ stage = -1 /\ query' \in Queries /\ words' = WordsOf(query') /\ stage' = 0 /\ UNCHANGED <<table, at, got, rows>>
Read == /\ at > 0 /\ at <= Len(words) /\ stage = 0
        /\ LET s == ParseStep(words, at, got) IN /\ got' = s[1] /\ at' = s[2]
        /\ UNCHANGED <<query, table, words, stage, rows>>
Begin == /\ at > Len(words) /\ stage = 0
         /\ rows' = (IF got.from = <<>> THEN table ELSE Run(got.from[1], table))
         /\ stage' = 1 /\ UNCHANGED <<query, table, words, at, got>>
Go == /\ stage \in 1..7
      /\ rows' = Apply(Stages[Order7[stage]], got, rows)
      /\ stage' = stage + 1 /\ UNCHANGED <<query, table, words, at, got>>
Next == Store \/ Ask \/ Read \/ Begin \/ Go
Spec == Init /\ [][Next]_vars

Contract == /\ at # 0
            /\ (at > Len(words) /\ stage = 0) => got = query
            /\ stage = 8 => IsAnswer(rows, query, table)
Emit == stage = 8 => PrintT(ToJson(query))
=============================================================================
