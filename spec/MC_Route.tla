------------------------------ MODULE MC_Route ------------------------------
(***************************************************************************)
(* The design of the routing: the time is put into the template, then, for *)
(* every combination of the (cleaned) values, the placeholders are         *)
(* replaced one after the other, and the record is stored once for each    *)
(* combination.  Against the contract of Route.tla.                        *)
(***************************************************************************)
EXTENDS Route, Integers, Sequences, FiniteSets, TLC

CONSTANT BUG

L(v) == [k |-> "lit", v |-> v, f |-> ""]
Fd(f) == [k |-> "fld", v |-> <<>>, f |-> f]
D(f) == [k |-> "dat", v |-> <<>>, f |-> f]
a == 97  b == 98  s == 47  bang == 33
Templates == { <<L(<<a, s, b>>)>>, <<L(<<a, s>>), Fd("x")>>, <<L(<<a, s>>), Fd("x"), L(<<s>>), Fd("y"), L(<<s>>), D("dd")>>,
               <<L(<<a, s>>), Fd("x"), Fd("y"), L(<<s>>), D("HH")>>, <<L(<<a, s>>), D("mm"), L(<<s>>), Fd("x"), L(<<s, b, s>>), Fd("x")>> }
Texts == { <<a>>, <<b>>, <<a, bang>>, <<a, b>> }
Lists == {<<t>> : t \in Texts} \cup {<<t, u>> : t, u \in Texts} \cup {<<>>}
Times == { <<2024, 2, 29, 23, 59, 50>>, <<2024, 3, 1, 0, 0, 10>> }

VARIABLES tpl, vals, now, bad, stored, done
vars == <<tpl, vals, now, bad, stored, done>>

Init == /\ tpl \in Templates /\ vals \in [{"x", "y"} -> Lists] /\ now \in Times /\ bad \in BOOLEAN
        /\ stored = <<>> /\ done = FALSE

(* the combinations, as the code builds them *)
Raw == BUG = "rawdistinct"
Item(f, i) == IF Raw THEN vals[f][i] ELSE Clean(vals[f][i])
Items(f) == {Item(f, i) : i \in IF BUG = "first" THEN 1..(IF vals[f] = <<>> THEN 0 ELSE 1) ELSE 1..Len(vals[f])}
Fs == Fields(tpl)
Combos == IF Fs = {} THEN {<<>>}
          ELSE IF BUG = "zip" /\ Fs = {"x", "y"}
               THEN {<< <<"x", Item("x", i)>>, <<"y", Item("y", i)>> >> : i \in 1..(IF Len(vals["x"]) < Len(vals["y"]) THEN Len(vals["x"]) ELSE Len(vals["y"]))}
          ELSE {c \in UNION {[1..n -> UNION {{<<f, t>> : t \in Items(f)} : f \in Fs}] : n \in {Cardinality(Fs)}} :
                  /\ \A i, j \in 1..Len(c) : i # j => c[i][1] # c[j][1]
                  /\ \A i, j \in 1..Len(c) : i < j => c[i][1] = "x"}

Local == IF BUG = "local" THEN <<2024, 2, 29, 0, 59, 50>> ELSE now

Store(c) == PathFor(tpl, c, Local, IF BUG = "nobackout" THEN FALSE ELSE bad)
RECURSIVE All(_)
All(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE x \in S : TRUE IN <<Store(c)>> \o All(S \ {c})

Next == ~done /\ done' = TRUE /\ stored' = All(Combos) /\ UNCHANGED <<tpl, vals, now, bad>>
Spec == Init /\ [][Next]_vars

(* once at each path *)
Contract == done => LET want == RoutePaths(tpl, vals, now, bad)
                    IN /\ {stored[i] : i \in 1..Len(stored)} = want
                       /\ Len(stored) = Cardinality(want)
(* nothing the values hold makes another folder *)
Slashes(x) == Cardinality({i \in 1..Len(x) : x[i] = 47})
Flat1 == done => \A i, j \in 1..Len(stored) : Slashes(stored[i]) = Slashes(stored[j])
=============================================================================
