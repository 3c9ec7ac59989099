------------------------------ MODULE MC_Access -----------------------------
(***************************************************************************)
(* The design: a statement is opened from the outside in; each query       *)
(* either opens its sub-query or makes a reader, which checks its dataset; *)
(* storage is only touched when records are asked for, after all of that.  *)
(* Prints names and prefixes for replay.                                   *)
(***************************************************************************)
EXTENDS Access, TLC, Json

CONSTANTS BUG, MaxName

Chars == {97, 65, 49, Dot, Slash, Dash, Under, 42}
SeqsOf(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Prefixes == {<<>>, << <<97>> >>, << <<49>>, <<97, Slash>> >>, << <<65>> >>, << <<97, 97>>, <<97, Slash, 97>> >>}

VARIABLES how, name, prefixes, depth, level, checked, status, touched
vars == <<how, name, prefixes, depth, level, checked, status, touched>>

Init == /\ how \in {"sql", "reader"} /\ name \in SeqsOf(Chars, 1, MaxName) /\ prefixes \in Prefixes
        /\ depth \in 0..(IF how = "sql" THEN 2 ELSE 0)
        /\ level = 0 /\ checked = FALSE /\ status = "new" /\ touched = 0

Opened == IF how = "sql" THEN Dataset(name) ELSE name
Passes(d) ==
    CASE BUG = "firstprefix" -> prefixes = <<>> \/ StartsWith(d, prefixes[1])
      [] BUG = "within" -> prefixes = <<>> \/ \E k \in 1..Len(prefixes), i \in 1..Len(d) : StartsWith(SubSeq(d, i, Len(d)), prefixes[k])
      [] BUG = "dotted" -> prefixes = <<>> \/ \E k \in 1..Len(prefixes) : StartsWith(IF how = "sql" THEN Commented(name, 1) ELSE d, prefixes[k])
      [] BUG = "outeronly" -> level > 0 \/ Allowed(d, prefixes)
      [] OTHER -> Allowed(d, prefixes)
(* a query with a sub-query: nothing of its own to check *)
Open == status = "new" /\ level < depth /\ level' = level + 1 /\ UNCHANGED <<how, name, prefixes, depth, checked, status, touched>>
Validate == /\ status = "new" /\ level = depth
            /\ status' = IF how = "sql" /\ ~WellFormed(Opened) /\ ~(BUG = "nested" /\ depth > 0) THEN "error" ELSE "valid"
            /\ UNCHANGED <<how, name, prefixes, depth, level, checked, touched>>
Make == /\ status = "valid" /\ (BUG = "late" => touched > 0)
        /\ status' = IF Passes(Opened) THEN "made" ELSE "AccessDenied"
        /\ checked' = TRUE /\ UNCHANGED <<how, name, prefixes, depth, level, touched>>
Read == /\ status = "made" \/ (BUG = "late" /\ status = "valid" /\ touched = 0)
        /\ touched' = touched + 1 /\ status' = (IF status = "made" THEN "read" ELSE status)
        /\ UNCHANGED <<how, name, prefixes, depth, level, checked>>
Next == Open \/ Validate \/ Make \/ Read
Spec == Init /\ [][Next]_vars

Over == status \in {"error", "AccessDenied", "read"}
Contract == /\ touched > 0 => Outcome(how, name, prefixes) = "read"
            /\ Over => status = Outcome(how, name, prefixes)
Emit == Over => PrintT(ToJson([how |-> how, name |-> name, prefixes |-> prefixes, depth |-> depth]))
=============================================================================
