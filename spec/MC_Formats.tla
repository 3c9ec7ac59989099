---------------------------- MODULE MC_Formats ----------------------------
(***************************************************************************)
(* The design of the read of one file after the other: each is fetched,    *)
(* taken apart, and its records are passed on until something fails, which *)
(* ends this file only.  A file is a sequence of units, each of which is a *)
(* record or damaged; files which are read as a whole have one unit.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
F == INSTANCE Formats

CONSTANTS NFiles, MaxUnits, BUG

Kinds == {"lines", "whole", "stream", "unknown", "control"}
Units == UNION {[1..n -> {"ok", "bad"}] : n \in 0..MaxUnits}
Files == [kind : Kinds, units : Units, fetch : BOOLEAN]
(* at most one unit is damaged; what isn't data has neither *)
Sane(f) == /\ Cardinality({i \in 1..Len(f.units) : f.units[i] = "bad"}) <= 1
           /\ f.kind \in {"unknown", "control"} => f.fetch /\ Len(f.units) = 1 /\ f.units[1] = "ok"
           /\ ~f.fetch => Len(f.units) = 2 /\ f.units = <<"ok", "ok">>

VARIABLES files, at, unit, got
vars == <<files, at, unit, got>>

Init == /\ files = <<>> /\ at = 0 /\ unit = 1 /\ got = <<>>
Choose == /\ at = 0 /\ Len(files) < NFiles
          /\ \E f \in Files : Sane(f) /\ files' = Append(files, f)
          /\ UNCHANGED <<at, unit, got>>
Start == at = 0 /\ Len(files) = NFiles /\ at' = 1 /\ UNCHANGED <<files, unit, got>>

f == files[at]
Rec(i, j) == <<i, j>>
NextFile == at' = at + 1 /\ unit' = 1
FirstBad == CHOOSE i \in 1..Len(f.units) : f.units[i] = "bad"
HasBad == \E i \in 1..Len(f.units) : f.units[i] = "bad"

Read == /\ at > 0 /\ at <= NFiles
        /\ UNCHANGED files
        /\ IF f.kind = "control" \/ (f.kind = "unknown" /\ BUG # "unknown") THEN NextFile /\ UNCHANGED got
           ELSE IF ~f.fetch
           THEN /\ UNCHANGED got
                /\ IF BUG = "stopall" THEN at' = NFiles + 1 /\ unit' = 1 ELSE NextFile
           ELSE CASE f.kind = "whole" /\ HasBad -> NextFile /\ UNCHANGED got
             [] f.kind = "stream" /\ HasBad ->       \* what came out of the decompression
                   \E k \in 0..(FirstBad - 1) : got' = got \o [j \in 1..k |-> Rec(at, j)] /\ NextFile
             [] OTHER ->
                   IF unit > Len(f.units) - (IF BUG = "last" /\ f.kind = "stream" THEN 1 ELSE 0) THEN NextFile /\ UNCHANGED got
                   ELSE IF f.units[unit] = "bad"
                   THEN /\ UNCHANGED got
                        /\ IF BUG = "skip" THEN unit' = unit + 1 /\ UNCHANGED at
                           ELSE IF BUG = "again" /\ unit > 1 THEN unit' = 1 /\ UNCHANGED at
                           ELSE NextFile
                   ELSE got' = Append(got, Rec(at, unit)) /\ unit' = unit + 1 /\ UNCHANGED at

Next == Choose \/ Start \/ Read
Spec == Init /\ [][Next]_vars

Whole(i) == [j \in 1..Len(files[i].units) |-> Rec(i, j)]
AsFile(i) ==
    LET g == files[i]
        n == Len(g.units)
        bad == {j \in 1..n : g.units[j] = "bad"}
        first == IF bad = {} THEN n ELSE (CHOOSE j \in bad : TRUE) - 1
    IN IF g.kind \in {"unknown", "control"} \/ ~g.fetch THEN [recs |-> <<>>, min |-> 0, max |-> 0]
       ELSE [recs |-> Whole(i), max |-> IF g.kind = "whole" /\ bad # {} THEN 0 ELSE first,
             min |-> IF bad = {} \/ g.kind = "lines" THEN first ELSE 0]

Contract == /\ at = NFiles + 1 => F!IsReading([i \in 1..NFiles |-> AsFile(i)], got)
            /\ Len(got) <= NFiles * MaxUnits
Emit == (at = 1 /\ unit = 1 /\ got = <<>>) => PrintT(ToJson([files |-> files]))
Chosen == at <= 1
=============================================================================
