------------------------------ MODULE MC_Cursor -----------------------------
(***************************************************************************)
(* The design of the cursor: a bit for every blob (has it been finished),  *)
(* the blob being read and the index of the last record taken from it.     *)
(* Readers are opened from the cursor of the one before; blobs may be      *)
(* added, after those there are, between readers.                          *)
(***************************************************************************)
EXTENDS Cursor, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, MaxBlobs, MaxRecs, MaxHops, MaxAdds

VARIABLES blobs,   \* the blobs: their record counts (what the filter leaves)
          seen,    \* how many of them the open reader knows of
          map, part, loc,      \* the cursor of the open reader
          out,     \* what has been read
          open, hops, adds, h
vars == <<blobs, seen, map, part, loc, out, open, hops, adds, h>>

Recs(i) == [k \in 1..blobs[i] |-> <<i, k>>]
All == Joined([i \in 1..Len(blobs) |-> Recs(i)])

Init == /\ blobs \in UNION {[1..n -> 0..MaxRecs] : n \in 1..MaxBlobs}
        /\ seen = Len(blobs) /\ map = {} /\ part = 0 /\ loc = -1
        /\ out = <<>> /\ open = "reading" /\ hops = 0 /\ adds = 0 /\ h = <<>>

(* the next blob, given which have been finished *)
Unread(m) == {i \in 1..seen : i \notin m}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

(* one record, moving over finished and empty blobs *)
RECURSIVE Advance(_, _, _)
Advance(m, p, l) ==   \* <<map, part, loc, record or <<>> >>
    IF p # 0 /\ l + 1 < blobs[p] THEN <<m, p, l + 1, <<p, l + 2>> >>
    ELSE LET m2 == IF p = 0 THEN m ELSE m \cup {p}
         IN IF Unread(m2) = {} THEN <<m2, 0, -1, <<>> >>
            ELSE Advance(m2, Least(Unread(m2)), IF BUG = "keeploc" THEN l ELSE -1)

Read == /\ open = "reading"
        /\ LET a == Advance(map, part, loc)
           IN /\ map' = a[1] /\ part' = a[2] /\ loc' = a[3]
              /\ out' = IF a[4] = <<>> THEN out ELSE Append(out, a[4])
              /\ open' = IF a[4] = <<>> THEN "end" ELSE "reading"
              /\ h' = IF a[4] = <<>> THEN Append(h, "e") ELSE Append(h, "r")
        /\ UNCHANGED <<blobs, seen, hops, adds>>

Add == /\ hops < MaxHops /\ adds < MaxAdds /\ Len(blobs) < MaxBlobs + MaxAdds
       /\ \E n \in 0..MaxRecs : blobs' = Append(blobs, n) /\ h' = Append(h, "a" \o ToString(n))
       /\ adds' = adds + 1
       /\ UNCHANGED <<seen, map, part, loc, out, open, hops>>

Hop == /\ hops < MaxHops /\ hops' = hops + 1
       /\ seen' = Len(blobs)
       /\ map' = IF BUG = "nomap" THEN {} ELSE IF BUG = "allmap" THEN map \cup (IF part = 0 THEN {} ELSE {part}) ELSE map
       /\ part' = IF BUG \in {"nopart", "allmap"} \/ loc < 0 THEN 0 ELSE part
       /\ loc' = IF BUG = "reread" /\ loc >= 0 THEN loc - 1 ELSE IF BUG = "skip" /\ loc >= 0 THEN loc + 1 ELSE loc
       /\ open' = "reading" /\ h' = Append(h, "h")
       /\ UNCHANGED <<blobs, out, adds>>

Next == Read \/ Add \/ Hop
Spec == Init /\ [][Next]_vars

Known == Joined([i \in 1..seen |-> Recs(i)])
Contract == /\ IsPrefixOf(out, Known)
            /\ open = "end" => out = Known

View == <<blobs, seen, map, part, loc, out, open, hops, adds>>
Emit == open = "end" /\ hops = MaxHops /\ seen = Len(blobs) => PrintT(ToJson([blobs |-> blobs, h |-> h]))
=============================================================================
