------------------------------ MODULE MC_Wide ------------------------------
(* the closed forms of Wide are what the definitions of Rel give, for sets small enough for both *)
EXTENDS Integers, Sequences, FiniteSets, Rel, Wide
CONSTANTS MaxRows, MaxGroups, BUG
VARIABLES n, k, xs
vars == <<n, k, xs>>

Near == {-2097153, -1048577, -1048576, -1, 0, 1, 5, 1048575, 1048576, 3000000}
Init == n \in 1..MaxRows /\ k \in 1..MaxGroups /\ xs = <<>>
Next == Len(xs) < 3 /\ n = 1 /\ k = 1 /\ \E x \in Near : xs' = Append(xs, x) /\ UNCHANGED <<n, k>>
Spec == Init /\ [][Next]_vars

Rows == [i \in 1..n |-> [_ |-> <<0>>, g |-> <<2, 1000 * ((i - 1) % k)>>, v |-> <<2, 1000 * ((i - 1) \div k)>>]]
Aggs == << <<"COUNT", "*", "c">>, <<"SUM", "v", "s">>, <<"MIN", "v", "l">>, <<"MAX", "v", "m">> >>
Fix(g) == IF BUG = "floor" THEN n \div k ELSE Size(n, k, g)
Res == [i \in 1..(IF n < k THEN n ELSE k) |-> LET c == Fix(i - 1) IN <<i - 1, c, (c * (c - 1)) \div 2, 0, c - 1>>]
Rel1(r) == [_ |-> <<0>>, g |-> <<2, 1000 * r[1]>>, c |-> <<2, 1000 * r[2]>>, s |-> <<2, 1000 * r[3]>>, l |-> <<2, 1000 * r[4]>>, m |-> <<2, 1000 * r[5]>>]
Forms == /\ IsGrouping([i \in 1..Len(Res) |-> Rel1(Res[i])], Rows, <<"g">>, Aggs)
         /\ BUG = "" => WideGroups(n, k, Res)

Abs(x) == IF x < 0 THEN -x ELSE x
Enc(x) == LET s == IF x < 0 THEN -1 ELSE 1 IN <<s * (Abs(x) % Base), s * (Abs(x) \div Base), 0, 0>>
RECURSIVE Plus(_)
Plus(s) == IF s = <<>> THEN 0 ELSE Head(s) + Plus(Tail(s))
Sums == LET vs == [i \in 1..Len(xs) |-> Enc(xs[i])] IN
        \A d \in {-1, 0, 1, 1048576} : IsSum(vs, Enc(Plus(xs) + (IF BUG = "carry" /\ d = 0 THEN 1 ELSE d))) = (d = 0)
Ends == LET vs == [i \in 1..Len(xs) |-> Enc(xs[i])] IN
        \A i \in 1..Len(xs) : /\ IsLeast(vs, vs[i]) = (\A j \in 1..Len(xs) : xs[i] <= xs[j])
                              /\ IsMost(vs, vs[i]) = (\A j \in 1..Len(xs) : xs[i] >= xs[j])
Contract == Forms /\ Sums /\ Ends
=============================================================================
