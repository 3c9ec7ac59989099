------------------------------ MODULE MC_Range ------------------------------
(***************************************************************************)
(* The design of reading a date range: step through the range hour by      *)
(* hour, read the folder of every hour which isn't read yet.  Agree: the   *)
(* folders read are exactly the partitions of the range, each once.        *)
(* The calendar itself is checked by walking it (Sound).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Calendar, TLC, Json

CONSTANTS BUG, SY, SM, SD, LEN   \* the first day of the window, and its length in days

VARIABLES a, b, g, cur, reads, st

vars == <<a, b, g, cur, reads, st>>

RECURSIVE Days(_, _)
Days(day, n) == IF n = 0 THEN <<>> ELSE <<day>> \o Days(NextDay(day[1], day[2], day[3]), n - 1)
Window == Days(<<SY, SM, SD>>, LEN)
Slots == {Window[i] \o <<h>> : i \in 1..LEN, h \in {0, 1, 9, 22, 23}}

Lo == IF HourNo(a) <= HourNo(b) \/ BUG = "noswap" THEN a ELSE b
Hi == IF HourNo(a) <= HourNo(b) \/ BUG = "noswap" THEN b ELSE a

Init == /\ a \in Slots /\ b \in Slots /\ g \in Grans
        /\ cur = Lo /\ reads = <<>> /\ st = "run"

Past == IF BUG = "exclusive" THEN HourNo(cur) >= HourNo(Hi) ELSE HourNo(cur) > HourNo(Hi)

StepOf(s) ==
    IF BUG = "daystep" /\ g # "hour" THEN NextDay(s[1], s[2], s[3]) \o <<s[4]>>
    ELSE IF BUG = "noleap" /\ s[2] = 2 /\ s[3] = 28 /\ s[4] = 23 THEN <<s[1], 3, 1, 0>>
    ELSE NextHour(s)

Seen == IF BUG = "novisited" THEN FALSE ELSE \E i \in 1..Len(reads) : reads[i] = Cut(cur, g)

Walk ==
    /\ st = "run"
    /\ IF Past THEN st' = "done" /\ UNCHANGED <<cur, reads>>
       ELSE /\ reads' = IF Seen THEN reads ELSE Append(reads, Cut(cur, g))
            /\ cur' = StepOf(cur)
            /\ st' = st
    /\ UNCHANGED <<a, b, g>>

Spec == Init /\ [][Walk]_vars

InitSpec == Init /\ [][FALSE]_vars

Parts == {Cut(s, g) : s \in {Window[i] \o <<h>> : i \in 1..LEN, h \in 0..23}}
Agree == st = "done" =>
    \A p \in Parts : Cardinality({i \in 1..Len(reads) : reads[i] = p}) = IF InRange(p, a, b, g) THEN 1 ELSE 0

(* the next hour is the next number, so numbers and calendar agree *)
Sound == st = "run" /\ BUG = "" => HourNo(NextHour(cur)) = HourNo(cur) + 1

(* behaviours for the conformance runs *)
Emit == st = "run" /\ cur = Lo /\ reads = <<>> => PrintT(ToJson([a |-> a, b |-> b, g |-> g]))
Contract == Agree /\ Sound
=============================================================================
