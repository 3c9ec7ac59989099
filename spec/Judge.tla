------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* The frame shared by all trace judges.  A judge module extends this one, *)
(* defines Verdict(case) - "ok" or the name of the clause which rejects -  *)
(* and JNext.  The cases come from a JSON file named by the environment    *)
(* variable CASES; every case is one initial state, and one step prints    *)
(* its verdict.  Every case gets a verdict (the harness counts them).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, judged

JInit == ci \in 1..Len(Cases) /\ judged = FALSE

(* a case which didn't complete (hang, crash, unexpected exception) is rejected *)
Print1(i, v) == PrintT(<<"V", i, v>>)

JStep(V(_)) ==
    /\ ~judged
    /\ judged' = TRUE
    /\ UNCHANGED ci
    /\ Print1(ci, IF Cases[ci].st # "ok" THEN Cases[ci].st ELSE V(Cases[ci]))

(* the first clause in a sequence of <<name, holds>> pairs that doesn't hold *)
RECURSIVE FirstBad(_, _)
FirstBad(cl, i) ==
    IF i > Len(cl) THEN "ok"
    ELSE IF cl[i][2] THEN FirstBad(cl, i + 1) ELSE cl[i][1]

Range(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A x \in Range(a) \cup Range(b) : Count(a, x) = Count(b, x)
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

RECURSIVE IsSubSeq(_, _)
(* is a a (not necessarily contiguous) subsequence of b *)
IsSubSeq(a, b) ==
    IF a = <<>> THEN TRUE
    ELSE IF b = <<>> THEN FALSE
    ELSE IF Head(a) = Head(b) THEN IsSubSeq(Tail(a), Tail(b))
    ELSE IsSubSeq(a, Tail(b))
=============================================================================
