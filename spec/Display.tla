------------------------------ MODULE Display ------------------------------
(***************************************************************************)
(* Tables of records, as HTML and as text.                                 *)
(*                                                                         *)
(* Text is a sequence of code points.  A value is shown as Shown says: a   *)
(* text as it is; a list as "[ a, b ]" of what its members are shown as; a *)
(* dictionary as "{ "k": v }" (the text of v as Python has it).            *)
(*                                                                         *)
(* HTML is what a browser makes of it: Tag, Attr and Undo are how a        *)
(* browser takes it apart.  It's given as pieces, which begin at each "<". *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

LOCAL LT == 60
LOCAL GT == 62
LOCAL DQ == 34
LOCAL SQ == 39
LOCAL AMP == 38
LOCAL SEMI == 59
LOCAL COMMA == 44
LOCAL Range(s) == {s[i] : i \in 1..Len(s)}
LOCAL Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

(* values: [k |-> "t", t |-> text], [k |-> "l", l |-> values], [k |-> "d", d |-> <<<<key, text>>, ..>>] *)
RECURSIVE Shown(_)
Shown(v) ==
    CASE v.k = "t" -> v.t
      [] v.k = "l" -> <<91, 32>> \o Join([i \in 1..Len(v.l) |-> Shown(v.l[i])], <<COMMA, 32>>) \o <<32, 93>>
      [] v.k = "d" -> <<123, 32>> \o Join([i \in 1..Len(v.d) |-> <<DQ>> \o v.d[i][1] \o <<DQ, 58, 32>> \o v.d[i][2]], <<COMMA, 32>>) \o <<32, 125>>

---------------------------------------------------------------------------
(* escaping, and how it's undone *)
Entities == {<<<<108, 116>>, LT>>, <<<<103, 116>>, GT>>, <<<<113, 117, 111, 116>>, DQ>>, <<<<97, 109, 112>>, AMP>>, <<<<97, 112, 111, 115>>, SQ>>}
LOCAL IsDec(c) == c >= 48 /\ c <= 57
LOCAL Hex(c) == IF IsDec(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
RECURSIVE Number(_, _, _)
LOCAL Number(s, base, acc) == IF s = <<>> THEN acc ELSE IF Hex(Head(s)) < 0 \/ Hex(Head(s)) >= base THEN -1 ELSE Number(Tail(s), base, acc * base + Hex(Head(s)))
(* what the entity with this name (what's between "&" and ";") is; -1 if it's none *)
Entity(name) ==
    IF \E e \in Entities : e[1] = name THEN (CHOOSE e \in Entities : e[1] = name)[2]
    ELSE IF Len(name) >= 2 /\ Len(name) <= 8 /\ name[1] = 35
    THEN IF name[2] \in {88, 120} THEN (IF Len(name) = 2 THEN -1 ELSE Number(SubSeq(name, 3, Len(name)), 16, 0))
         ELSE Number(Tail(name), 10, 0)
    ELSE -1

(* the place of the first c in s from i, or 0 *)
Find(s, c, i) == IF \E j \in i..Len(s) : s[j] = c THEN CHOOSE j \in i..Len(s) : s[j] = c /\ \A m \in i..(j - 1) : s[m] # c ELSE 0

RECURSIVE Undo(_, _, _)
(* the text which s stands for from i; a stray "&" makes it <<-1>>, which no text is *)
LOCAL Undo(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF s[i] # AMP
    THEN LET n == IF \E j \in i..Len(s) : s[j] = AMP THEN Find(s, AMP, i) ELSE Len(s) + 1      \* as far as the next "&"
         IN Undo(s, n, acc \o SubSeq(s, i, n - 1))
    ELSE LET e == Find(s, SEMI, i)
             c == IF e = 0 \/ e > i + 9 THEN -1 ELSE Entity(SubSeq(s, i + 1, e - 1))
         IN IF c < 0 THEN <<-1>> ELSE Undo(s, e + 1, Append(acc, c))
Unescaped(s) == Undo(s, 1, <<>>)
(* s has nothing which is markup *)
Inert(s) == Range(s) \cap {LT, GT, DQ, SQ} = {} /\ Unescaped(s) # <<-1>>

---------------------------------------------------------------------------
(* the piece from a "<" (which isn't in it) on: its tag and what follows   *)
RECURSIVE TagEnd(_, _, _)
(* the place of the ">" which ends the tag: not one in quotes *)
LOCAL TagEnd(p, i, q) ==
    IF i > Len(p) THEN 0
    ELSE IF q # 0 THEN TagEnd(p, i + 1, IF p[i] = q THEN 0 ELSE q)
    ELSE IF p[i] = GT THEN i
    ELSE TagEnd(p, i + 1, IF p[i] \in {DQ, SQ} THEN p[i] ELSE 0)
End(p) == TagEnd(p, 1, 0)
Tag(p) == SubSeq(p, 1, End(p) - 1)
Text(p) == SubSeq(p, End(p) + 1, Len(p))
LOCAL NameEnd(t) == IF \E i \in 1..Len(t) : t[i] \in {32, 10, 9} THEN (CHOOSE i \in 1..Len(t) : t[i] \in {32, 10, 9} /\ \A j \in 1..(i - 1) : t[j] \notin {32, 10, 9}) - 1 ELSE Len(t)
Name(p) == SubSeq(Tag(p), 1, NameEnd(Tag(p)))

TABLE == <<116, 97, 98, 108, 101>>
ROW == <<116, 114>>
HEAD == <<116, 104>>
CELL == <<116, 100>>
PARA == <<112>>
LOCAL Closing(n) == <<47>> \o n
LOCAL THEAD == <<116, 104, 101, 97, 100>>
LOCAL TBODY == <<116, 98, 111, 100, 121>>
Structure == LET open == {TABLE, THEAD, TBODY, ROW, HEAD, CELL, PARA} IN open \cup {Closing(n) : n \in open}

TITLE == <<116, 105, 116, 108, 101, 61>>
(* the value of the title attribute of the tag of a piece; <<-1>> if there's none *)
RECURSIVE TitleAt(_, _)
LOCAL TitleAt(t, i) ==
    IF i + 6 > Len(t) THEN <<-1>>
    ELSE IF SubSeq(t, i, i + 5) = TITLE /\ t[i + 6] \in {DQ, SQ}
    THEN LET e == Find(t, t[i + 6], i + 7) IN IF e = 0 THEN <<-1>> ELSE SubSeq(t, i + 7, e - 1)
    ELSE IF t[i] \in {DQ, SQ} THEN (LET e == Find(t, t[i], i + 1) IN IF e = 0 THEN <<-1>> ELSE TitleAt(t, e + 1))
    ELSE TitleAt(t, i + 1)
Title(p) == TitleAt(Tag(p), NameEnd(Tag(p)) + 1)

RECURSIVE SplitRows(_, _)
(* the pieces of the cells of each row *)
LOCAL SplitRows(ps, acc) ==
    IF ps = <<>> THEN acc
    ELSE LET n == Name(Head(ps)) IN
         SplitRows(Tail(ps),
             IF n = ROW THEN Append(acc, <<>>)
             ELSE IF n \in {HEAD, CELL, Closing(HEAD), Closing(CELL)} /\ acc # <<>>
             THEN [acc EXCEPT ![Len(acc)] = Append(@, Head(ps))]
             ELSE acc)
(* cells come as pairs of an opening tag and one which closes it *)
Cells(row) == [i \in 1..((Len(row) + 1) \div 2) |-> row[2 * i - 1]]

(* the columns of some records (sequences of <<column, value>>) *)
Cols(recs) == UNION {{recs[i][j][1] : j \in 1..Len(recs[i])} : i \in 1..Len(recs)}
ValueOf(rec, c) == IF \E j \in 1..Len(rec) : rec[j][1] = c THEN Shown(rec[CHOOSE j \in 1..Len(rec) : rec[j][1] = c][2]) ELSE <<>>

(* the pieces are a table of the first limit records *)
Parsed(pieces) == \A i \in 1..Len(pieces) : End(pieces[i]) > 0
OnlyStructure(pieces) == \A i \in 1..Len(pieces) : Name(pieces[i]) \in Structure
InertTexts(pieces) ==
    \A i \in 1..Len(pieces) : Inert(Text(pieces[i])) /\ (Title(pieces[i]) # <<-1>> => Inert(Title(pieces[i])))
Rows(pieces) == LET rs == SplitRows(pieces, <<>>) IN [i \in 1..Len(rs) |-> Cells(rs[i])]
IsTable(recs, limit, pieces) ==
    LET shown == SubSeq(recs, 1, Min(limit, Len(recs)))
        rows == Rows(pieces)
        cols == Cols(shown)
        heads == [i \in 1..Len(rows[1]) |-> Unescaped(SubSeq(Text(rows[1][i]), 1, Len(Text(rows[1][i]))))]
        trim(s) == IF s # <<>> /\ s[Len(s)] = 10 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
    IN IF shown = <<>> THEN rows = <<>>
       ELSE /\ Len(rows) = Len(shown) + 1
            /\ Len(heads) = Cardinality(cols)
            /\ {heads[i] : i \in 1..Len(heads)} = cols
            /\ \A r \in 1..Len(shown) :
                  /\ Len(rows[r + 1]) = Len(heads)
                  /\ \A i \in 1..Len(heads) :
                        LET want == ValueOf(shown[r], heads[i]) IN
                        /\ Unescaped(Text(rows[r + 1][i])) = want
                        /\ Title(rows[r + 1][i]) # <<-1>> => Unescaped(Title(rows[r + 1][i])) = want

---------------------------------------------------------------------------
(* text tables: lines of code points; the first line has where the columns are *)
LOCAL Bars(l) == {i \in 1..Len(l) : l[i] \in {9484, 9516, 9488}}
LOCAL Trim(s) ==
    LET keep == {i \in 1..Len(s) : s[i] # 32}
        lo == CHOOSE i \in keep : \A j \in keep : i <= j
        hi == CHOOSE i \in keep : \A j \in keep : i >= j
    IN IF keep = {} THEN <<>> ELSE SubSeq(s, lo, hi)
LOCAL Spans(l) == {<<i, j>> \in Bars(l) \X Bars(l) : i < j /\ ~\E m \in Bars(l) : i < m /\ m < j}
CellAt(l, sp) == Trim(SubSeq(l, sp[1] + 1, sp[2] - 1))
IsTextTable(recs, limit, lines) ==
    LET shown == SubSeq(recs, 1, Min(limit, Len(recs)))
        cols == Cols(shown)
        spans == Spans(lines[1])
    IN /\ Len(lines) = Len(shown) + 4
       /\ \A i \in 1..Len(lines) : Len(lines[i]) = Len(lines[1])
       /\ \A i \in {2} \cup 4..(Len(lines) - 1) : \A b \in Bars(lines[1]) : cols # {} => lines[i][b] = 9474
       /\ cols # {} =>
             /\ Cardinality(spans) = Cardinality(cols)
             /\ {CellAt(lines[2], sp) : sp \in spans} = {Trim(c) : c \in cols}
             /\ \A r \in 1..Len(shown) : \A c \in cols :
                   \E sp \in spans : CellAt(lines[2], sp) = Trim(c) /\ CellAt(lines[r + 3], sp) = Trim(ValueOf(shown[r], c))
=============================================================================
