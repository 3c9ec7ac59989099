---------------------------- MODULE MC_Display ----------------------------
(***************************************************************************)
(* The design of the HTML table: the texts of the data are escaped a       *)
(* replacement at a time and put in a template, as the text of a cell and  *)
(* in quotes as its title.  What a browser makes of it is Display's.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
D == INSTANCE Display

CONSTANTS MaxLen, NRecs, BUG

(* < > " ' & ; q (of quot, for what looks like an entity) *)
Chars == {60, 62, 34, 39, 38, 59, 113}
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}
Quot == <<38, 113, 117, 111, 116, 59>>
Values == {[k |-> "t", t |-> t] : t \in Texts \cup {Quot}} \cup {[k |-> "l", l |-> <<[k |-> "t", t |-> <<60, c>>]>>] : c \in Chars}
          \cup {[k |-> "d", d |-> <<<< <<c>>, <<60>> >>>>] : c \in Chars}

Steps == LET all == <<<<38, <<38, 97, 109, 112, 59>>>>, <<34, Quot>>, <<39, <<38, 35, 51, 57, 59>>>>, <<60, <<38, 108, 116, 59>>>>, <<62, <<38, 103, 116, 59>>>>>>
         IN CASE BUG = "late" -> Append(Tail(all), all[1])
              [] BUG = "noamp" -> Tail(all)
              [] BUG = "nosingle" -> SelectSeq(all, LAMBDA s : s[1] # 39)
              [] BUG = "nolt" -> SelectSeq(all, LAMBDA s : s[1] # 60)
              [] OTHER -> all

RECURSIVE Replace(_, _, _)
Replace(s, c, by) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = c THEN by ELSE <<Head(s)>>) \o Replace(Tail(s), c, by)
RECURSIVE Escape(_, _)
Escape(s, steps) == IF steps = <<>> THEN s ELSE Escape(Replace(s, Head(steps)[1], Head(steps)[2]), Tail(steps))
Esc(v) == IF BUG = "nested" /\ v.k # "t" THEN D!Shown(v) ELSE Escape(D!Shown(v), Steps)

VARIABLES recs, limit, at, pieces
vars == <<recs, limit, at, pieces>>

Init == /\ recs = <<>> /\ at = 0 /\ pieces = <<>> /\ limit \in 0..NRecs
Add == /\ at = 0 /\ Len(recs) < NRecs
       /\ \E v \in Values : \E c \in {<<97>>, <<60>>} : recs' = Append(recs, <<<<c, v>>>>)
       /\ UNCHANGED <<limit, at, pieces>>

GT == 62
(* the table, cut at each "<" *)
Columns == LET S == D!Cols(SubSeq(recs, 1, limit)) IN IF <<60>> \in S THEN (IF <<97>> \in S THEN <<<<60>>, <<97>>>> ELSE <<<<60>>>>) ELSE IF S = {} THEN <<>> ELSE <<<<97>>>>
RECURSIVE Cut(_, _)
Cut(s, acc) == IF s = <<>> THEN acc
               ELSE IF Head(s) = 60 THEN Cut(Tail(s), Append(acc, <<>>))
               ELSE Cut(Tail(s), [acc EXCEPT ![Len(acc)] = Append(@, Head(s))])
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Lt == <<60>>
Head_ == Lt \o D!TABLE \o <<GT>>
HeadCells == Concat([i \in 1..Len(Columns) |-> Lt \o D!HEAD \o <<GT>> \o Escape(Columns[i], Steps) \o Lt \o D!HEAD \o <<GT>>])
RowCells(r) == Concat([i \in 1..Len(Columns) |->
    LET e == IF \E j \in 1..Len(r) : r[j][1] = Columns[i] THEN Esc(r[1][2]) ELSE <<>> IN
    Lt \o D!CELL \o <<32>> \o D!TITLE \o <<39>> \o e \o <<39, GT>> \o e \o Lt \o D!CELL \o <<GT>>])
Html == LET n == IF BUG = "limit" THEN limit + 1 ELSE limit
            shown == SubSeq(recs, 1, IF n < Len(recs) THEN n ELSE Len(recs))
        IN IF shown = <<>> THEN Head_
           ELSE Head_ \o Lt \o D!ROW \o <<GT>> \o HeadCells \o Concat([i \in 1..Len(shown) |-> Lt \o D!ROW \o <<GT>> \o RowCells(shown[i])])

Show == at = 0 /\ Len(recs) = NRecs /\ at' = 1 /\ pieces' = Cut(Tail(Html), <<<<>>>>) /\ UNCHANGED <<recs, limit>>
Next == Add \/ Show
Spec == Init /\ [][Next]_vars

Contract == at = 1 => /\ D!Parsed(pieces) /\ D!OnlyStructure(pieces) /\ D!InertTexts(pieces)
                      /\ D!IsTable(recs, limit, pieces)
(* escaping can be undone, whatever the text *)
Undone == at = 0 => \A t \in Texts : D!Unescaped(Escape(t, Steps)) = t
Emit == at = 1 => PrintT(ToJson([recs |-> recs, limit |-> limit]))
=============================================================================
