------------------------------ MODULE MC_Crash ------------------------------
(***************************************************************************)
(* Batches for one date, each a process which makes the folder, stores its *)
(* blobs (a blob is created, filled part by part) and then its marker, and *)
(* which may die between any two of these.  What is served (Frames.tla) is *)
(* at any moment the newest completed frame, or all of the running one.    *)
(***************************************************************************)
EXTENDS Crash, Frames, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, MaxBatch, Blobs, Pieces   \* Pieces: pieces a blob is written in

VARIABLES O,      \* the objects in the folder
          b,      \* the batch running (0: none yet), its frame is b
          pc,     \* what the batch does next
          i, p,   \* the blob it is at, and how many pieces of that are stored
          old,    \* what was served before the batch
          done    \* has finalize returned
vars == <<O, b, pc, i, p, old, done>>

Piece(f, k, q) == <<f, k, q>>
Blob(f, k, n) == [by |-> "", part |-> ToString(k), frame |-> f, kind |-> "data", recs |-> [q \in 1..n |-> Piece(f, k, q)]]
Marker(f) == [by |-> "", part |-> "", frame |-> f, kind |-> "complete", recs |-> <<>>]

Served == UNION {{o.recs[q] : q \in 1..Len(o.recs)} : o \in ServedFolder(O)}
New == {Piece(b, k, q) : k \in 1..Blobs, q \in 1..Pieces}

Init == O = {} /\ b = 0 /\ pc = "idle" /\ i = 0 /\ p = 0 /\ old = {} /\ done = FALSE

Start == /\ pc = "idle" /\ b < MaxBatch
         /\ b' = b + 1 /\ old' = Served /\ done' = FALSE
         /\ i' = 1 /\ p' = 0
         /\ pc' = IF BUG = "markfirst" THEN "mark" ELSE IF BUG = "tidyfirst" THEN "tidy" ELSE "write"
         /\ UNCHANGED O

Frame == IF BUG = "reuse" THEN 1 ELSE b

Tidy == /\ pc = "tidy" /\ O' = {o \in O : o.frame = b} /\ pc' = "write" /\ UNCHANGED <<b, i, p, old, done>>

Write == /\ pc = "write"
         /\ O' = {o \in O : ~(o.kind = "data" /\ o.frame = Frame /\ o.part = ToString(i))} \cup
                 {[Blob(b, i, p) EXCEPT !.frame = Frame]} \* in place: created empty, then piece by piece
         /\ IF p < Pieces THEN p' = p + 1 /\ i' = i /\ pc' = pc
            ELSE IF i < Blobs THEN i' = i + 1 /\ p' = 0 /\ pc' = pc
            ELSE pc' = (IF BUG = "markfirst" THEN "ret" ELSE "mark") /\ UNCHANGED <<i, p>>
         /\ UNCHANGED <<b, old, done>>

Mark == /\ pc = "mark" /\ O' = O \cup {Marker(Frame)}
        /\ pc' = (IF BUG = "markfirst" THEN "write" ELSE "ret")
        /\ UNCHANGED <<b, i, p, old, done>>

Return == pc = "ret" /\ pc' = "idle" /\ done' = TRUE /\ UNCHANGED <<O, b, i, p, old>>

Die == pc \in {"write", "mark", "ret", "tidy"} /\ pc' = "idle" /\ UNCHANGED <<O, b, i, p, old, done>>

Next == Start \/ Tidy \/ Write \/ Mark \/ Return \/ Die
Spec == Init /\ [][Next]_vars

Outcome == IF done THEN "done" ELSE "died"
Contract == b > 0 => Served \in MayRead(old, New, Outcome)
=============================================================================
