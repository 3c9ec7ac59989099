------------------------------ MODULE Records ------------------------------
(***************************************************************************)
(* The helpers for records.  A value is [t, x, v]: t = "x" with the token x   *)
(* of a scalar, "d" with the sequence v of <<name, value>>, or "l" with    *)
(* that of <<<<>>, value>>; names are sequences of code points.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

Under(path, sep, name) == IF path = <<>> THEN name ELSE path \o sep \o name
RECURSIVE Leaves(_, _, _)
(* every value of a record which isn't a record or list, and the path to it; pairs without a name are at the top *)
Leaves(v, sep, path) ==
    CASE v.t = "x" -> << <<path, v.x>> >>
      [] v.t = "d" -> Concat([i \in 1..Len(v.v) |-> Leaves(v.v[i][2], sep, Under(path, sep, v.v[i][1]))])
      [] v.t = "l" -> Concat([i \in 1..Len(v.v) |-> Leaves(v.v[i][2], sep, Under(path, sep, Digits(i - 1)))])

Keys(pairs) == [i \in 1..Len(pairs) |-> pairs[i][1]]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
(* flat: pairs <<path, token>>, where no two paths are the same *)
IsFlat(v, sep, flat) ==
    LET ls == Leaves(v, sep, <<>>) IN
    Distinct(Keys(ls)) => /\ Len(flat) = Len(ls)
                          /\ \A i \in 1..Len(ls) : \E j \in 1..Len(flat) : flat[j] = ls[i]

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
SamePairs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i] = b[j]
IsOrdered(pairs, out) == SamePairs(pairs, out) /\ \A i \in 1..(Len(out) - 1) : Less(out[i][1], out[i + 1][1])

At(pairs, k) == LET i == {x \in 1..Len(pairs) : pairs[x][1] = k} IN
                IF i = {} THEN [t |-> "x", x |-> "null", v |-> <<>>] ELSE pairs[CHOOSE x \in i : TRUE][2]
(* the fields asked for, each of them once, null where there is none *)
IsSelection(pairs, fields, out) ==
    /\ \A i \in 1..Len(out) : (\E j \in 1..Len(fields) : fields[j] = out[i][1]) /\ out[i][2] = At(pairs, out[i][1])
    /\ \A j \in 1..Len(fields) : \E i \in 1..Len(out) : out[i][1] = fields[j]
    /\ Distinct(Keys(out))
(* one field set, all others as they were, in their places *)
IsSet(pairs, field, value, out) ==
    LET there == \E i \in 1..Len(pairs) : pairs[i][1] = field IN
    IF there THEN out = [i \in 1..Len(pairs) |-> IF pairs[i][1] = field THEN <<field, value>> ELSE pairs[i]]
    ELSE out = Append(pairs, <<field, value>>)

(* A histogram: every value is in one bin, and of two values the larger isn't in an earlier one *)
RECURSIVE Plus(_)
Plus(s) == IF s = <<>> THEN 0 ELSE Head(s) + Plus(Tail(s))
(* how many values there are up to the end of each bin *)
UpTo(bins, k) == Plus(SubSeq(bins, 1, k))
Count(vals, x) == Cardinality({i \in 1..Len(vals) : vals[i] <= x})
IsHistogram(vals, n, bins) ==
    /\ Len(bins) = n
    /\ \A k \in 1..n : bins[k] >= 0
    /\ Plus(bins) = Len(vals)
    \* equal values aren't in different bins
    /\ \A k \in 1..n : UpTo(bins, k) = 0 \/ \E i \in 1..Len(vals) : Count(vals, vals[i]) = UpTo(bins, k)
    \* the bins are of equal width: neither end is cut short by more than a bin, and the first has the least
    /\ bins[1] > 0
=============================================================================
