----------------------------- MODULE MC_Records -----------------------------
(***************************************************************************)
(* Flattening with a list of what's still to be done: a record or list is  *)
(* replaced by its items, each with the path to it, until only values are  *)
(* left.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Records
CONSTANTS Depth, BUG

X(k) == [t |-> "x", x |-> k, v |-> <<>>]
A == <<97>>
B == <<98>>
Base == {X("1"), X("2")}
RECURSIVE Values(_)
Values(d) == IF d = 0 THEN Base
             ELSE LET s == Values(d - 1) IN
                  Base \cup {[t |-> "l", x |-> "", v |-> [i \in 1..Len(x) |-> <<<<>>, x[i]>>]] : x \in UNION {[1..n -> s] : n \in 0..2}}
                       \cup {[t |-> "d", x |-> "", v |-> << <<A, x>> >>] : x \in s}
                       \cup {[t |-> "d", x |-> "", v |-> << <<A, x>>, <<B, y>> >>] : x \in s, y \in s}
Records1 == {v \in Values(Depth) : v.t = "d"}

VARIABLES rec, todo, out
vars == <<rec, todo, out>>
Sep == <<46>>
Init == rec \in Records1 /\ todo = << <<<<>>, rec>> >> /\ out = <<>>
Named(p, n) == IF BUG = "noparent" THEN n ELSE Under(p, IF BUG = "nosep" THEN <<>> ELSE Sep, n)
Put(s, p, v) == IF BUG = "single" /\ \E i \in 1..Len(s) : s[i][2] = v THEN s ELSE Append(SelectSeq(s, LAMBDA x : x[1] # p), <<p, v>>)
Step == /\ todo # <<>>
        /\ LET p == Head(todo)[1]
               v == Head(todo)[2]
           IN CASE v.t = "x" -> out' = Put(out, p, v.x) /\ todo' = Tail(todo)
                [] v.t = "d" -> todo' = [i \in 1..Len(v.v) |-> <<Named(p, v.v[i][1]), v.v[i][2]>>] \o Tail(todo) /\ UNCHANGED out
                [] v.t = "l" -> /\ todo' = (IF BUG = "lists" THEN <<>> ELSE [i \in 1..Len(v.v) |-> <<Named(p, Digits(IF BUG = "one" THEN 1 ELSE i - 1)), v.v[i][2]>>]) \o Tail(todo)
                                /\ UNCHANGED out
        /\ UNCHANGED rec
Spec == Init /\ [][Step]_vars
Contract == todo = <<>> => IsFlat(rec, Sep, out)
Emit == todo = <<>> => PrintT(ToJson([rec |-> rec]))
=============================================================================
