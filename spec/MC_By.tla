------------------------------- MODULE MC_By --------------------------------
(***************************************************************************)
(* Every date folder with two partitionings of two folders, each folder    *)
(* with up to two frames in any condition (and plain blobs): the reader's  *)
(* algorithm serves one of the servings the definition allows.             *)
(***************************************************************************)
EXTENDS Frames, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, States, Frs
B == {"by_a", "by_b"}
P == {"1", "2"}

VARIABLES st, filter

Init == /\ st \in [B \X P \X Frs -> States]
        /\ filter \in {<<>>, <<"by_a", "1">>, <<"by_b", "2">>, <<"by_c", "1">>}
Next == UNCHANGED <<st, filter>>
Spec == Init /\ [][Next]_<<st, filter>>

ObjsOf(b, p, f) ==
    LET x == st[<<b, p, f>>]
        o(k, i) == [by |-> b, part |-> p, frame |-> f, kind |-> k, recs |-> <<b, p, f, i>>]
    IN IF x = "none" THEN {}
       ELSE {o("data", 1)} \cup (IF x \in {"done", "ignored"} /\ f # 0 THEN {o("complete", 0)} ELSE {})
                           \cup (IF x = "ignored" /\ f # 0 THEN {o("ignore", 0)} ELSE {})

O == UNION {ObjsOf(x[1], x[2], x[3]) : x \in B \X P \X Frs}

(* the algorithm: the last partitioning in name order, or the one of the filter *)
LastBy == IF "by_b" \in Bys(O) THEN "by_b" ELSE "by_a"
Newest(S) == IF Valid(S) = {} THEN 0 ELSE Max(Valid(S))
Algo ==
    LET flt == filter # <<>> /\ filter[1] \in Bys(O)
        b == IF flt THEN filter[1] ELSE LastBy
        S == {o \in O : o.by = b /\ (flt => o.part = filter[2] \/ BUG = "nofilter")}
        one(p) == LET T == {o \in S : o.part = p}
                      f == IF BUG = "sharedframe" THEN Newest(S) ELSE Newest(T)
                  IN IF FramesOf(T) = {} THEN {o \in T : o.kind = "data"}
                     ELSE {o \in T : o.kind = "data" /\ o.frame = f /\ f # 0}
    IN IF Bys(O) = {} THEN ServedFolder(O)
       ELSE IF BUG = "mixed" THEN UNION {ServedBy(O, x) : x \in Bys(O)}
       ELSE UNION {one(p) : p \in Parts(S, b)}

Agree == Algo \in Servings(O, filter)
OneBy == \A s \in Servings(O, filter) : Cardinality({o.by : o \in s}) <= 1

Emit == PrintT(ToJson([o |-> O, filter |-> filter]))
=============================================================================
