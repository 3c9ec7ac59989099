------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Values as sequences of integers, which any two of can be compared:      *)
(* <<0>> null, <<1, b>> boolean, <<2, n>> number (n thousandths), <<3>>    *)
(* and code points: text, <<4, y, mo, d, h, mi, s>> point in time,         *)
(* <<7, n>> and n times the length and the codes of an element: list       *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Null == <<0>>
Kind(v) == v[1]
IsNull(v) == v[1] = 0
Text(v) == Tail(v)

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))

Ordered(x, y) == Kind(x) = Kind(y) /\ Kind(x) \in {1, 2, 3, 4}
Less(x, y) == LexLess(Tail(x), Tail(y))

(* the comparisons; of values which can't be ordered none but <> holds *)
Compare(o, x, y) ==
    CASE o = "=" -> x = y
      [] o = "<>" -> x # y
      [] o = "<" -> Ordered(x, y) /\ Less(x, y)
      [] o = "<=" -> Ordered(x, y) /\ (x = y \/ Less(x, y))
      [] o = ">" -> Ordered(x, y) /\ Less(y, x)
      [] o = ">=" -> Ordered(x, y) /\ (x = y \/ Less(y, x))

(* Latin, Greek and Cyrillic letters *)
LowerC(c) == IF (c >= 65 /\ c <= 90) \/ (c >= 192 /\ c <= 222 /\ c # 215) \/ (c >= 913 /\ c <= 937 /\ c \notin {930, 931}) \/ (c >= 1040 /\ c <= 1071)
             THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]

(* p: 37 (%) any text, 95 (_) any one character *)
RECURSIVE LikeR(_, _)
LikeR(s, p) ==
    IF p = <<>> THEN s = <<>>
    ELSE IF p[1] = 37 THEN LikeR(s, Tail(p)) \/ (s # <<>> /\ LikeR(Tail(s), p))
    ELSE s # <<>> /\ (p[1] = 95 \/ p[1] = s[1]) /\ LikeR(Tail(s), Tail(p))
Like(s, p) == LikeR(Lower(s), Lower(p))

StartsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
Holds(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t

RECURSIVE ElemsFrom(_, _)
ElemsFrom(s, n) == IF n = 0 THEN <<>> ELSE <<SubSeq(s, 2, s[1] + 1)>> \o ElemsFrom(SubSeq(s, s[1] + 2, Len(s)), n - 1)
Elems(v) == ElemsFrom(SubSeq(v, 3, Len(v)), v[2])

(* does x (a text or a list) contain y *)
Contains(x, y) == CASE Kind(x) = 3 -> Kind(y) = 3 /\ Holds(Text(x), Text(y))
                    [] Kind(x) = 7 -> \E i \in 1..x[2] : Elems(x)[i] = y
                    [] OTHER -> FALSE
InList(x, ys) == \E i \in 1..Len(ys) : ys[i] = x

(* very simple regular expressions: a sequence of characters and -1 (any  *)
(* but a newline), which may have to be at the start and at the end         *)
FitsAt(s, at, ps) == \A k \in 1..Len(ps) : (ps[k] = -1 /\ s[at + k] # 10) \/ ps[k] = s[at + k]
Matches(s, r) == \E at \in 0..(Len(s) - Len(r.p)) :
                    /\ FitsAt(s, at, r.p)
                    /\ (r.l = 1 => at = 0) /\ (r.r = 1 => at + Len(r.p) = Len(s))
(* start?, end?, and the characters *)
RegexOf(v) == [l |-> v[1], r |-> v[2], p |-> SubSeq(v, 3, Len(v))]
=============================================================================
