---------------------------- MODULE MC_Together ----------------------------
(***************************************************************************)
(* Jobs of which each keeps what it needs for itself, done a step at a     *)
(* time in any order: each gives what it gives alone.  The broken variants *)
(* share something: a buffer, the position of a read, the parameters of    *)
(* the job opened last, the results kept for a name.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Together
CONSTANTS NJobs, NRows, BUG

Kinds == {"batch", "read", "set", "grow"}
Rows(j) == [i \in 1..NRows |-> <<10 * j + i, i % 2, ((i - 1) % 3) + 1>>]
Jobs(j) == {[kind |-> kd, rows |-> Rows(j), a |-> 1, b |-> IF kd = "read" THEN b ELSE 3, r |-> IF kd = "batch" THEN 0 ELSE b % 2, k |-> 9] : kd \in Kinds, b \in {2, 3}}

VARIABLES jobs, open, buf, pos, out, sched, last, kept
vars == <<jobs, open, buf, pos, out, sched, last, kept>>
J == 1..NJobs

Init == /\ jobs \in {f \in [J -> UNION {Jobs(j) : j \in J}] : \A j \in J : f[j] \in Jobs(j)}
        /\ open = [j \in J |-> FALSE] /\ buf = [j \in J |-> <<>>] /\ pos = [j \in J |-> 0]
        /\ out = [j \in J |-> <<>>] /\ sched = <<>> /\ last = 0 /\ kept = 0

P(j) == IF BUG = "last" /\ last # 0 THEN [jobs[last] EXCEPT !.kind = jobs[j].kind, !.rows = jobs[j].rows] ELSE jobs[j]
B(j) == IF BUG = "buffer" THEN 1 ELSE j        \* where the job's rows are gathered
Source(j) == CASE jobs[j].kind = "batch" -> jobs[j].rows
               [] jobs[j].kind = "read" -> IF BUG = "kept" /\ kept # 0 THEN Days(jobs[kept].rows, P(j).a, P(j).b) ELSE Days(jobs[j].rows, P(j).a, P(j).b)
               [] OTHER -> jobs[j].rows
Seen(j, x) == jobs[j].kind = "batch" \/ x[2] # P(j).r
Q(j) == IF BUG = "position" THEN 1 ELSE j

Start(j) == /\ ~open[j]
            /\ open' = [open EXCEPT ![j] = TRUE]
            /\ last' = j
            /\ kept' = IF kept = 0 /\ jobs[j].kind = "read" THEN j ELSE kept
            /\ UNCHANGED <<buf, pos, out>>
Step(j) == /\ open[j] /\ pos[Q(j)] < Len(Source(j)) /\ out[j] = <<>>
           /\ pos' = [pos EXCEPT ![Q(j)] = @ + 1]
           /\ LET x == Source(j)[pos[Q(j)] + 1] IN
              buf' = IF Seen(j, x) THEN [buf EXCEPT ![B(j)] = Append(@, x)] ELSE buf
           /\ UNCHANGED <<open, out, last, kept>>
Done(j) == /\ open[j] /\ pos[Q(j)] >= Len(Source(j)) /\ out[j] = <<>>
           /\ out' = [out EXCEPT ![j] = IF jobs[j].kind = "grow" THEN [d \in 1..3 |-> <<d, N(OfDay(buf[B(j)], d))>>] ELSE << <<0, N(buf[B(j)])>> >>]
           /\ UNCHANGED <<open, buf, pos, last, kept>>
Next == \E j \in J : /\ Start(j) \/ Step(j) \/ Done(j)
                     /\ sched' = Append(sched, j)
                     /\ UNCHANGED jobs
Spec == Init /\ [][Next]_vars
View == <<jobs, open, buf, pos, out, last, kept>>

Contract == \A j \in J : out[j] = <<>> \/ out[j] = Gives(jobs[j])
Emit == (\A j \in J : out[j] # <<>>) => PrintT(ToJson([sched |-> sched]))
=============================================================================
