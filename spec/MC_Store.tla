------------------------------- MODULE MC_Store ------------------------------
(***************************************************************************)
(* The design of persisted sets: records in batches, which are found by    *)
(* dividing positions, and one place up to which the set has been read,    *)
(* which cycling starts afresh.  Every answer is that of the records.      *)
(* Prints histories of calls for replay.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, MaxRecords, Batch, MaxCalls

VARIABLES n, batches, at, hist, answers
vars == <<n, batches, at, hist, answers>>

(* storing: full batches, and what is left *)
BatchesOf(k) ==
    LET full == [b \in 1..(k \div Batch) |-> [j \in 1..Batch |-> (b - 1) * Batch + j]]
        rest == [j \in 1..(k % Batch) |-> (k \div Batch) * Batch + j]
    IN IF rest = <<>> \/ BUG = "nolast" THEN full ELSE Append(full, rest)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
All == Cat(batches)

Positions == {s \in UNION {[1..k -> 0..(n - 1)] : k \in 1..2} : \A i, j \in 1..Len(s) : i < j => s[i] < s[j]}
Calls == {[k |-> "list", at |-> <<>>, n |-> 0], [k |-> "count", at |-> <<>>, n |-> 0], [k |-> "first", at |-> <<>>, n |-> 0]}
         \cup {[k |-> "take", at |-> <<>>, n |-> m] : m \in 0..2}
         \cup {[k |-> "items", at |-> s, n |-> 0] : s \in Positions}

(* the record at each of the positions, keeping the batch which was last unpacked *)
RECURSIVE Lookup(_, _, _)
Lookup(ps, have, b) ==
    IF ps = <<>> THEN <<>>
    ELSE LET want == IF BUG = "offbyone" THEN ((Head(ps) + 1) \div Batch) + 1 ELSE (Head(ps) \div Batch) + 1
             now == IF want = b \/ (BUG = "samebatch" /\ b # 0) THEN have ELSE IF want <= Len(batches) THEN batches[want] ELSE <<>>
             i == (Head(ps) % Batch) + 1
         IN (IF i <= Len(now) THEN <<now[i]>> ELSE <<>>) \o Lookup(Tail(ps), now, IF BUG = "samebatch" /\ b # 0 THEN b ELSE want)

Upto(k) == SubSeq(All, 1, IF k < Len(All) THEN k ELSE Len(All))
(* <<answer, where the set has been read up to>> *)
Do(c) ==
    CASE c.k = "list" -> <<IF BUG = "noreset" THEN SubSeq(All, at + 1, Len(All)) ELSE All, 0>>
      [] c.k = "first" -> <<Upto(1), Len(Upto(1))>>
      [] c.k = "take" -> <<Upto(c.n), IF c.n = 0 THEN at ELSE Len(Upto(c.n))>>
      [] c.k = "count" -> <<<<n>>, at>>
      [] c.k = "items" -> <<Lookup(c.at, <<>>, 0), at>>

Want(c) == LET seq(k) == [i \in 1..k |-> i] IN
    CASE c.k = "list" -> seq(n)
      [] c.k = "first" -> seq(IF n = 0 THEN 0 ELSE 1)
      [] c.k = "take" -> seq(IF c.n < n THEN c.n ELSE n)
      [] c.k = "count" -> <<n>>
      [] c.k = "items" -> [i \in 1..Len(c.at) |-> c.at[i] + 1]

Init == n \in 0..MaxRecords /\ batches = BatchesOf(n) /\ at = 0 /\ hist = <<>> /\ answers = <<>>
Next == /\ Len(hist) < MaxCalls
        /\ \E c \in Calls : hist' = Append(hist, c) /\ answers' = Append(answers, Do(c)[1]) /\ at' = Do(c)[2]
        /\ UNCHANGED <<n, batches>>
Spec == Init /\ [][Next]_vars

Contract == \A i \in 1..Len(hist) : answers[i] = Want(hist[i])
Emit == Len(hist) = MaxCalls => PrintT(ToJson([n |-> n, calls |-> hist]))
=============================================================================
