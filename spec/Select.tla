------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* Select expressions: what they give for a row.                           *)
(*                                                                         *)
(* A value is <<0>> null, <<1, b>> a boolean, <<2, n>> a whole number,     *)
(* <<8, n>> a fractional number of n thousandths, <<3, ...>> a text,       *)
(* <<4, y, m, d, h, mi, s>> a point in time, <<5, y, m, d>> a day,         *)
(* <<6, h, mi, s>> a time of a day, <<7, values>> a list.                  *)
(*                                                                         *)
(* An expression is [k |-> "col", src, name], [k |-> "const", src, v],     *)
(* [k |-> "fn", f, a] (function, arguments) or [k |-> "all"]; a field is   *)
(* an expression and the name it's given ([e, as], <<>> is none).  src is  *)
(* the text as it's written.  A row is a sequence of <<name, value>>.      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE Calendar
LOCAL INSTANCE Weeks
I == INSTANCE Iso

Null == <<0>>
Bool(b) == <<1, IF b THEN 1 ELSE 0>>
Whole(n) == <<2, n>>
Text(s) == <<3>> \o s
Kind(v) == v[1]
Chars(v) == Tail(v)

---------------------------------------------------------------------------
(* texts of values, as Python writes them *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Signed(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(<<48>> \o s, n)
RECURSIVE NoZeros(_)
LOCAL NoZeros(s) == IF Len(s) > 1 /\ s[Len(s)] = 48 THEN NoZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
LOCAL Abs(n) == IF n < 0 THEN -n ELSE n
FloatText(n) == (IF n < 0 THEN <<45>> ELSE <<>>) \o Digits(Abs(n) \div 1000) \o <<46>> \o NoZeros(Pad(Digits(Abs(n) % 1000), 3))
LOCAL Two(n) == Pad(Digits(n), 2)
DateText(d) == Pad(Digits(d[1]), 4) \o <<45>> \o Two(d[2]) \o <<45>> \o Two(d[3])
TimeText(t) == Two(t[1]) \o <<58>> \o Two(t[2]) \o <<58>> \o Two(t[3])

RECURSIVE Join(_, _), Str(_)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Str(v) ==
    CASE Kind(v) = 0 -> <<78, 111, 110, 101>>
      [] Kind(v) = 1 -> IF v[2] = 1 THEN <<84, 114, 117, 101>> ELSE <<70, 97, 108, 115, 101>>
      [] Kind(v) = 2 -> Signed(v[2])
      [] Kind(v) = 8 -> FloatText(v[2])
      [] Kind(v) = 3 -> Chars(v)
      [] Kind(v) = 4 -> DateText(Tail(v)) \o <<32>> \o TimeText(SubSeq(v, 5, 7))
      [] Kind(v) = 5 -> DateText(Tail(v))
      [] Kind(v) = 6 -> TimeText(Tail(v))
      [] OTHER -> Join([i \in 1..Len(v[2]) |-> Str(v[2][i])], <<44, 32>>)

LOCAL Up(c) == IF (c >= 97 /\ c <= 122) \/ (c >= 224 /\ c <= 254 /\ c # 247) THEN c - 32 ELSE c
LOCAL Low(c) == IF (c >= 65 /\ c <= 90) \/ (c >= 192 /\ c <= 222 /\ c # 215) THEN c + 32 ELSE c
Upper(s) == [i \in 1..Len(s) |-> Up(s[i])]
Lower(s) == [i \in 1..Len(s) |-> Low(s[i])]
LOCAL White == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160}
Strip(s) ==
    LET keep == {i \in 1..Len(s) : s[i] \notin White}
    IN IF keep = {} THEN <<>>
       ELSE SubSeq(s, CHOOSE i \in keep : \A j \in keep : i <= j, CHOOSE i \in keep : \A j \in keep : i >= j)
LOCAL Min(a, b) == IF a < b THEN a ELSE b
LOCAL Max(a, b) == IF a > b THEN a ELSE b

---------------------------------------------------------------------------
(* points in time: <<>> is none *)
AsTime(v) ==
    CASE Kind(v) = 3 -> I!Iso(Chars(v))
      [] Kind(v) = 4 -> Tail(v)
      [] Kind(v) = 5 -> Tail(v) \o <<0, 0, 0>>
      [] OTHER -> <<>>
LOCAL OfTime(v, F(_)) == LET t == AsTime(v) IN IF t = <<>> THEN Null ELSE F(t)
LOCAL SecOf(t) == t[4] * 3600 + t[5] * 60 + t[6]
DaysBetween(a, b) ==
    LET n == DayNo(b[1], b[2], b[3]) - DayNo(a[1], a[2], a[3])
    IN IF SecOf(b) < SecOf(a) THEN n - 1 ELSE n

(* numbers, in thousandths *)
Thousandths(v) == IF Kind(v) = 8 THEN v[2] ELSE IF Kind(v) = 1 THEN 1000 * v[2] ELSE 1000 * v[2]
(* a text which is a number: sign, digits, and up to three more after a point *)
RECURSIVE Num(_)
LOCAL Num(s) == IF s = <<>> THEN 0 ELSE 10 * Num(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48
ParseNumber(s0) ==
    LET s == Strip(s0)
        neg == s[1] = 45
        b == IF s[1] \in {43, 45} THEN Tail(s) ELSE s
        point == {i \in 1..Len(b) : b[i] = 46}
        whole == IF point = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in point : TRUE) - 1)
        frac == IF point = {} THEN <<>> ELSE SubSeq(b, (CHOOSE i \in point : TRUE) + 1, Len(b))
        n == 1000 * Num(whole) + Num(SubSeq(frac \o <<48, 48, 48>>, 1, 3))
    IN IF neg THEN -n ELSE n
AsNumber(v) == IF Kind(v) = 3 THEN ParseNumber(Chars(v)) ELSE Thousandths(v)
Towards0(n) == IF n < 0 THEN -((-n) \div 1000) ELSE n \div 1000
(* to the nearest multiple of u, to the even one if both are as near *)
Nearest(n, u) ==
    LET lo == n \div u
        r == n % u
    IN IF 2 * r < u \/ (2 * r = u /\ lo % 2 = 0) THEN lo ELSE lo + 1
LOCAL Unit(d) == CASE d = 0 -> 1000 [] d = 1 -> 100 [] d = 2 -> 10 [] OTHER -> 1
Round(v, digits) ==
    IF Kind(v) = 2 THEN v
    ELSE IF digits < 0 THEN Whole(Nearest(Thousandths(v), 1000))
    ELSE <<8, Nearest(Thousandths(v), Unit(digits)) * Unit(digits)>>

(* the order of values of the same kind *)
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE SeqLess(Tail(a), Tail(b))
Less(a, b) == IF Kind(a) \in {1, 2, 8} THEN Thousandths(a) < Thousandths(b) ELSE SeqLess(Tail(a), Tail(b))
RECURSIVE Insert(_, _)
LOCAL Insert(s, v) == IF s = <<>> THEN <<v>> ELSE IF Less(v, s[1]) THEN <<v>> \o s ELSE <<s[1]>> \o Insert(Tail(s), v)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

---------------------------------------------------------------------------
(* functions which are null if any of their arguments is *)
Strict == {"ADDDAYS", "UCASE", "UPPER", "LCASE", "LOWER", "TRIM", "LEN", "LEFT", "RIGHT", "MID",
           "ROUND", "TRUNC", "INTEGER", "DOUBLE", "BOOLEAN", "BETWEEN", "SORT"}
(* H(name, text) is the hash of a text *)
Apply(f, a, H(_, _)) ==
    IF f \in Strict /\ \E i \in 1..Len(a) : a[i] = Null THEN Null
    ELSE CASE f = "YEAR" -> OfTime(a[1], LAMBDA t : Whole(t[1]))
           [] f = "MONTH" -> OfTime(a[1], LAMBDA t : Whole(t[2]))
           [] f = "DAY" -> OfTime(a[1], LAMBDA t : Whole(t[3]))
           [] f = "HOUR" -> OfTime(a[1], LAMBDA t : Whole(t[4]))
           [] f = "MINUTE" -> OfTime(a[1], LAMBDA t : Whole(t[5]))
           [] f = "SECOND" -> OfTime(a[1], LAMBDA t : Whole(t[6]))
           [] f = "QUARTER" -> OfTime(a[1], LAMBDA t : Whole((t[2] + 2) \div 3))
           [] f = "WEEK" -> OfTime(a[1], LAMBDA t : Whole(Week(t[1], t[2], t[3])))
           [] f = "DATE" -> OfTime(a[1], LAMBDA t : <<5, t[1], t[2], t[3]>>)
           [] f = "TIME" -> OfTime(a[1], LAMBDA t : <<6, t[4], t[5], t[6]>>)
           [] f = "ADDDAYS" -> OfTime(a[1], LAMBDA t : LET d == I!DayAfter(t[1], t[2], t[3], a[2][2]) IN
                                    IF Kind(a[1]) = 5 THEN <<5>> \o d ELSE <<4>> \o d \o <<t[4], t[5], t[6]>>)
           [] f = "DAYSDIFF" -> OfTime(a[1], LAMBDA s : OfTime(a[2], LAMBDA t : Whole(DaysBetween(s, t))))
           [] f \in {"UPPER", "UCASE"} -> Text(Upper(Str(a[1])))
           [] f \in {"LOWER", "LCASE"} -> Text(Lower(Str(a[1])))
           [] f = "TRIM" -> Text(Strip(Str(a[1])))
           [] f = "STRING" -> Text(Str(a[1]))
           [] f = "LEN" -> Whole(IF Kind(a[1]) = 7 THEN Len(a[1][2]) ELSE Len(Chars(a[1])))
           [] f = "LEFT" -> LET s == Str(a[1]) IN Text(SubSeq(s, 1, Min(Len(s), a[2][2])))
           [] f = "RIGHT" -> LET s == Str(a[1]) IN Text(SubSeq(s, Max(1, Len(s) - a[2][2] + 1), Len(s)))
           [] f = "MID" -> LET s == Str(a[1]) IN Text(SubSeq(s, a[2][2] + 1, Min(Len(s), a[2][2] + a[3][2])))
           [] f = "CONCAT" -> Text(IF Len(a) = 1 THEN Str(a[1]) ELSE Join([i \in 1..Len(a) |-> Str(a[i])], <<>>))
           [] f = "ROUND" -> Round(a[1], IF Len(a) = 2 THEN a[2][2] ELSE -1)
           [] f \in {"TRUNC", "INTEGER"} -> Whole(Towards0(AsNumber(a[1])))
           [] f = "DOUBLE" -> <<8, AsNumber(a[1])>>
           [] f = "BOOLEAN" -> Bool(Upper(Str(a[1])) # <<70, 65, 76, 83, 69>>)
           [] f = "ISNONE" -> Bool(a[1] = Null)
           [] f = "BETWEEN" -> Bool(Less(a[2], a[1]) /\ Less(a[1], a[3]))
           [] f = "SORT" -> <<7, Sorted(a[1][2])>>
           [] f \in {"MD5", "HASH"} -> Text(H(f, Str(a[1])))

Get(row, name) == IF \E i \in 1..Len(row) : row[i][1] = name THEN row[CHOOSE i \in 1..Len(row) : row[i][1] = name][2] ELSE Null
RECURSIVE Eval(_, _, _)
(* hs: the hashes, a sequence of <<function, text, hash>> *)
Eval(e, row, hs) ==
    CASE e.k = "col" -> Get(row, e.name)
      [] e.k = "const" -> IF Kind(e.v) = 3 THEN (IF I!Iso(Chars(e.v)) = <<>> THEN e.v ELSE <<4>> \o I!Iso(Chars(e.v))) ELSE e.v
      [] e.k = "fn" -> Apply(e.f, [i \in 1..Len(e.a) |-> Eval(e.a[i], row, hs)],
                             LAMBDA f, t : hs[CHOOSE i \in 1..Len(hs) : hs[i][1] = f /\ hs[i][2] = t][3])

(* the names of fields: functions are named by what they are, in upper case and without spaces *)
RECURSIVE Label(_)
Label(e) == IF e.k = "fn" THEN e.name \o <<40>> \o Join([i \in 1..Len(e.a) |-> Label(e.a[i])], <<44>>) \o <<41>>
            ELSE IF e.k = "all" THEN <<42>> ELSE e.src
FieldName(f) == IF f.as # <<>> THEN f.as ELSE Label(f.e)

(* what a row becomes: the fields named, and for * its own *)
Starred(fields) == \E i \in 1..Len(fields) : fields[i].e.k = "all"
Names(fields, row) == {FieldName(fields[i]) : i \in {j \in 1..Len(fields) : fields[j].e.k # "all"}}
                      \cup (IF Starred(fields) THEN {row[i][1] : i \in 1..Len(row)} ELSE {})
(* the last of the fields of a name counts *)
Selected(fields, row, name, hs) ==
    LET at == {i \in 1..Len(fields) : fields[i].e.k # "all" /\ FieldName(fields[i]) = name}
    IN IF at = {} THEN Get(row, name) ELSE Eval(fields[CHOOSE i \in at : \A j \in at : j <= i].e, row, hs)
IsSelected(fields, row, hs, got) ==
    /\ {got[i][1] : i \in 1..Len(got)} = Names(fields, row)
    /\ Len(got) = Cardinality(Names(fields, row))
    /\ \A i \in 1..Len(got) : got[i][2] = Selected(fields, row, got[i][1], hs)
=============================================================================
