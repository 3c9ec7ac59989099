------------------------------- MODULE MC_Dnf -------------------------------
(***************************************************************************)
(* The design of DNF filters: how a nested list is told to be a            *)
(* conjunction or a disjunction, and evaluated, stopping as soon as the    *)
(* answer is known.  Values are <<"t", i>> (a tuple) and <<"l", items>>.   *)
(* Prints the filters for replay.                                          *)
(***************************************************************************)
EXTENDS Dnf, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, Depth, Width, MaxLeaves

VARIABLES tree, done
vars == <<tree, done>>

SeqsOf(S, lo) == UNION {[1..n -> S] : n \in lo..Width}
RECURSIVE Lists(_)
Lists(d) == IF d = 0 THEN {<<"all", s>> : s \in SeqsOf({<<"atom">>}, 0)}
            ELSE Lists(d - 1) \cup {<<"any", s>> : s \in SeqsOf(Lists(d - 1), 1)}
Shapes == {<<"atom">>} \cup Lists(Depth)

RECURSIVE Leaves(_), LeavesOf(_)
Leaves(t) == IF t[1] = "atom" THEN 1 ELSE LeavesOf(t[2])
LeavesOf(ts) == IF ts = <<>> THEN 0 ELSE Leaves(Head(ts)) + LeavesOf(Tail(ts))
RECURSIVE Number(_, _), NumberOf(_, _)
Number(t, n) == IF t[1] = "atom" THEN <<"atom", n>> ELSE <<t[1], NumberOf(t[2], n)>>
NumberOf(ts, n) == IF ts = <<>> THEN <<>> ELSE <<Number(Head(ts), n)>> \o NumberOf(Tail(ts), n + Leaves(Head(ts)))

(* how it is written *)
RECURSIVE Written(_)
Written(t) == IF t[1] = "atom" THEN <<"t", t[2]>> ELSE <<"l", [i \in 1..Len(t[2]) |-> Written(t[2][i])]>>

(* the evaluation: 1 true, 0 false, 2 not a filter *)
RECURSIVE Eval(_, _), AllFrom(_, _, _), AnyFrom(_, _, _)
AllFrom(ps, i, on) == IF i > Len(ps) THEN 1 ELSE IF Eval(ps[i], on) # 1 THEN 0 ELSE AllFrom(ps, i + 1, on)
AnyFrom(ps, i, on) == IF i > Len(ps) THEN 0 ELSE IF Eval(ps[i], on) # 0 THEN 1 ELSE AnyFrom(ps, i + 1, on)
Eval(w, on) ==
    IF w[1] = "t" THEN (IF w[2] \in on THEN 1 ELSE 0)
    ELSE IF \A i \in 1..Len(w[2]) : w[2][i][1] = "t"
         THEN (IF BUG = "swapped" THEN AnyFrom(w[2], 1, on) ELSE IF BUG = "emptyfalse" /\ w[2] = <<>> THEN 0 ELSE AllFrom(w[2], 1, on))
         ELSE IF \A i \in 1..Len(w[2]) : w[2][i][1] = "l"
              THEN (IF BUG = "shallow" THEN AnyFrom([i \in 1..Len(w[2]) |-> IF w[2][i][2] = <<>> THEN w[2][i] ELSE w[2][i][2][1]], 1, on)
                    ELSE AnyFrom(w[2], 1, on))
              ELSE 2

Init == tree \in {Number(s, 1) : s \in {x \in Shapes : Leaves(x) <= MaxLeaves}} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tree
Spec == Init /\ [][Next]_vars

Contract == \A on \in SUBSET (1..Leaves(tree)) : Eval(Written(tree), on) = IF DnfTruth(tree, on) THEN 1 ELSE 0
Emit == done => PrintT(ToJson([tree |-> tree]))
=============================================================================
