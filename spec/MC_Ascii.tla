----------------------------- MODULE MC_Ascii -----------------------------
(***************************************************************************)
(* The design of the text table: the records are inspected for the columns *)
(* and the widths these need, and are then drawn.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
D == INSTANCE Display

CONSTANTS NRecs, BUG

Names == {<<97>>, <<98, 98, 98>>}
Texts == {<<>>, <<120>>, <<121, 121, 121, 121>>}
Fields == {<<n, [k |-> "t", t |-> t]>> : n \in Names, t \in Texts}
Recs == {<<>>} \cup {<<f>> : f \in Fields} \cup {<<p[1], p[2]>> : p \in {q \in Fields \X Fields : q[1][1] # q[2][1]}}

VARIABLES recs, limit, seen, cols, lines
vars == <<recs, limit, seen, cols, lines>>

Init == recs = <<>> /\ limit \in 0..NRecs /\ seen = -1 /\ cols = <<>> /\ lines = <<>>
Add == /\ seen = -1 /\ Len(recs) < NRecs
       /\ \E r \in Recs : recs' = Append(recs, r)
       /\ UNCHANGED <<limit, seen, cols, lines>>
Start == seen = -1 /\ Len(recs) = NRecs /\ seen' = 0 /\ UNCHANGED <<recs, limit, cols, lines>>

Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Widen(_, _)
Widen(cs, r) ==
    IF r = <<>> THEN cs
    ELSE LET n == Head(r)[1]
             w == IF BUG = "narrow" THEN Len(n) ELSE Max(Len(n), Len(D!Shown(Head(r)[2])))
             at == {i \in 1..Len(cs) : cs[i][1] = n}
         IN Widen(IF at = {} THEN Append(cs, <<n, w>>) ELSE [cs EXCEPT ![CHOOSE i \in at : TRUE] = <<n, Max(@[2], w)>>], Tail(r))
Inspect == /\ seen >= 0 /\ seen < Len(recs) /\ lines = <<>> /\ (seen < limit \/ BUG = "limit")
           /\ cols' = Widen(cols, recs[seen + 1]) /\ seen' = seen + 1
           /\ UNCHANGED <<recs, limit, lines>>

Fill(n, c) == [i \in 1..n |-> c]
Centre(s, w) == LET left == IF w > Len(s) THEN (w - Len(s)) \div 2 ELSE 0
                    right == IF w > Len(s) THEN w - Len(s) - left ELSE 0
                IN Fill(left, 32) \o s \o Fill(right, 32)
Bar(a, b, c) == <<a>> \o D!Join([i \in 1..Len(cols) |-> Fill(cols[i][2] + 2, 9472)], <<b>>) \o <<c>>
Line(ts) == <<9474>> \o D!Join(ts, <<9474>>) \o <<9474>>
Width(n) == cols[CHOOSE i \in 1..Len(cols) : cols[i][1] = n][2] + 2
Row(r) == IF BUG = "order" THEN Line([i \in 1..Len(r) |-> Centre(D!Shown(r[i][2]), Width(r[i][1]))])
          ELSE Line([i \in 1..Len(cols) |-> Centre(D!ValueOf(r, cols[i][1]), cols[i][2] + 2)])
Draw == /\ seen >= 0 /\ lines = <<>> /\ ~ENABLED Inspect
        /\ lines' = <<Bar(9484, 9516, 9488), Line([i \in 1..Len(cols) |-> Centre(cols[i][1], cols[i][2] + 2)]), Bar(9500, 9532, 9508)>>
                    \o [i \in 1..seen |-> Row(recs[i])] \o <<Bar(9492, 9524, 9496)>>
        /\ UNCHANGED <<recs, limit, seen, cols>>
Next == Add \/ Start \/ Inspect \/ Draw
Spec == Init /\ [][Next]_vars

Contract == lines # <<>> => D!IsTextTable(recs, limit, lines)
Emit == (seen = 0 /\ lines = <<>>) => PrintT(ToJson([recs |-> recs, limit |-> limit]))
=============================================================================
