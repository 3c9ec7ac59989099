-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Sets which are too large, or of numbers which are too large, for the    *)
(* operators of Rel to be evaluated on them.                               *)
(*                                                                         *)
(* Groups: n rows (in any order); row i = 0..n-1 is in group i % k and has *)
(* the value i \div k, so what each group has follows from n and k alone.  *)
(*                                                                         *)
(* Numbers: a number is <<x0, x1, x2, x3>>, the digits of its magnitude in *)
(* base 2^20 (the lowest first), each with the sign of the number.         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Size(n, k, g) == (n \div k) + (IF g < (n % k) THEN 1 ELSE 0)
(* res: <<group, count, sum, least, most>> in any order *)
WideGroups(n, k, res) ==
    /\ Len(res) = (IF n < k THEN n ELSE k)
    /\ Cardinality({res[i][1] : i \in 1..Len(res)}) = Len(res)
    /\ \A i \in 1..Len(res) :
         LET g == res[i][1]
             c == Size(n, k, g)
         IN g \in 0..(k - 1) /\ res[i] = <<g, c, (c * (c - 1)) \div 2, 0, c - 1>>

Base == 1048576
Digits == 4
RECURSIVE AddUp(_, _, _)
AddUp(vs, i, t) == IF i > Len(vs) THEN t ELSE AddUp(vs, i + 1, [d \in 1..Digits |-> t[d] + vs[i][d]])
RECURSIVE Zero(_, _, _)
Zero(t, d, carry) == IF d > Digits THEN carry = 0
                     ELSE (t[d] + carry) % Base = 0 /\ Zero(t, d + 1, (t[d] + carry) \div Base)
IsSum(vs, r) == LET t == AddUp(vs, 1, <<0, 0, 0, 0>>) IN Zero([d \in 1..Digits |-> t[d] - r[d]], 1, 0)

RECURSIVE Below(_, _, _)
Below(a, b, d) == d > 0 /\ (a[d] < b[d] \/ (a[d] = b[d] /\ Below(a, b, d - 1)))
IsLeast(vs, r) == (\E i \in 1..Len(vs) : vs[i] = r) /\ \A i \in 1..Len(vs) : ~Below(vs[i], r, Digits)
IsMost(vs, r) == (\E i \in 1..Len(vs) : vs[i] = r) /\ \A i \in 1..Len(vs) : ~Below(r, vs[i], Digits)

Values(rows, key) == LET s == SelectSeq(rows, LAMBDA x : key = -1 \/ x.k = key) IN [i \in 1..Len(s) |-> s[i].v]
(* an answer: op of the values of the rows of the group (-1: all) is r *)
BigAnswer(rows, a) ==
    LET vs == Values(rows, a.key) IN
    /\ Len(a.r) = Digits
    /\ CASE a.op = "sum" -> IsSum(vs, a.r)
         [] a.op = "min" -> IsLeast(vs, a.r)
         [] a.op = "max" -> IsMost(vs, a.r)
=============================================================================
