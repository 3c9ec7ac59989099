------------------------------ MODULE MC_Expr -------------------------------
(***************************************************************************)
(* The design of the parser of filter expressions: a recursive descent     *)
(* over the tokens.  For every tree, written with as few parentheses as    *)
(* the precedence (NOT, AND, OR) allows, or with all of them, what the     *)
(* parser makes of it is true for the same values of the atoms.            *)
(* Prints the trees and tokens for replay.                                 *)
(***************************************************************************)
EXTENDS Expr, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, Depth, MaxLeaves

VARIABLES tree, style, done
vars == <<tree, style, done>>

RECURSIVE Shapes(_)
Shapes(d) == IF d = 0 THEN {<<"atom">>}
             ELSE LET S == Shapes(d - 1)
                  IN {<<"atom">>} \cup {<<"not", s>> : s \in S} \cup {<<o, s, t>> : o \in {"and", "or"}, s \in S, t \in S}

RECURSIVE Leaves(_)
Leaves(t) == CASE t[1] = "atom" -> 1 [] t[1] = "not" -> Leaves(t[2]) [] OTHER -> Leaves(t[2]) + Leaves(t[3])
RECURSIVE Number(_, _)
Number(t, n) == CASE t[1] = "atom" -> <<"atom", n>>
                  [] t[1] = "not" -> <<"not", Number(t[2], n)>>
                  [] OTHER -> <<t[1], Number(t[2], n), Number(t[3], n + Leaves(t[2]))>>

Level(t) == CASE t[1] = "or" -> 1 [] t[1] = "and" -> 2 [] t[1] = "not" -> 3 [] OTHER -> 4
RECURSIVE Render(_, _)
Wrap(t, least, st) == IF Level(t) < least \/ (st = "full" /\ t[1] # "atom") THEN <<"(">> \o Render(t, st) \o <<")">> ELSE Render(t, st)
Render(t, st) == CASE t[1] = "atom" -> <<ToString(t[2])>>
                   [] t[1] = "not" -> <<"NOT">> \o Wrap(t[2], 3, st)
                   [] t[1] = "and" -> Wrap(t[2], 2, st) \o <<"AND">> \o Wrap(t[3], 2, st)
                   [] t[1] = "or" -> Wrap(t[2], 1, st) \o <<"OR">> \o Wrap(t[3], 1, st)

(* the parser: <<tree, tokens left>> *)
Is(ts, x) == ts # <<>> /\ Head(ts) = x
Low == IF BUG = "orfirst" THEN "AND" ELSE "OR"
High == IF BUG = "orfirst" THEN "OR" ELSE "AND"
Op(x) == IF x = "AND" THEN "and" ELSE "or"
Num(x) == CHOOSE n \in 1..MaxLeaves : ToString(n) = x
RECURSIVE PExpr(_), PExprOn(_), PTerm(_), PTermOn(_), PCond(_)
PCond(ts) ==
    IF Is(ts, "NOT") THEN LET r == IF BUG = "notwide" THEN PTerm(Tail(ts)) ELSE PCond(Tail(ts)) IN << <<"not", r[1]>>, r[2]>>
    ELSE IF Is(ts, "(") THEN LET r == PExpr(Tail(ts)) IN <<r[1], Tail(r[2])>>
    ELSE << <<"atom", Num(Head(ts))>>, Tail(ts)>>
PTermOn(l) == IF Is(l[2], High) \/ (BUG = "flat" /\ Is(l[2], Low))
              THEN LET r == PCond(Tail(l[2])) IN PTermOn(<< <<Op(Head(l[2])), l[1], r[1]>>, r[2]>>) ELSE l
PTerm(ts) == PTermOn(PCond(ts))
PExprOn(l) == IF Is(l[2], Low) THEN LET r == PTerm(Tail(l[2])) IN PExprOn(<< <<Op(Low), l[1], r[1]>>, r[2]>>) ELSE l
PExpr(ts) == PExprOn(PTerm(ts))

Init == tree \in {Number(s, 1) : s \in {x \in Shapes(Depth) : Leaves(x) <= MaxLeaves}} /\ style \in {"min", "full"} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<tree, style>>
Spec == Init /\ [][Next]_vars

Contract == LET p == PExpr(Render(tree, style)) IN
            /\ p[2] = <<>>
            /\ \A on \in SUBSET (1..Leaves(tree)) : Truth(p[1], on) = Truth(tree, on)
Emit == done => PrintT(ToJson([tree |-> tree, tokens |-> Render(tree, style)]))
=============================================================================
