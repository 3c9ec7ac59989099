------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The calendar: days are numbered from 1 January 1600 (which starts a 400 *)
(* year cycle), hours from its midnight.  A slot is <<y, m, d, h>>.        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m # 2 THEN 31 ELSE IF Leap(y) THEN 29 ELSE 28

(* days before the month in its year *)
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayOfYear(y, m, d) == Before[m] + d + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)

LeapsBefore(y) == LET n == y - 1600 IN (n + 3) \div 4 - (n + 99) \div 100 + (n + 399) \div 400
DayNo(y, m, d) == (y - 1600) * 365 + LeapsBefore(y) + DayOfYear(y, m, d) - 1
HourNo(s) == DayNo(s[1], s[2], s[3]) * 24 + s[4]

IsDate(y, m, d) == y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)

NextDay(y, m, d) ==
    IF d < DaysIn(y, m) THEN <<y, m, d + 1>>
    ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
NextHour(s) == IF s[4] < 23 THEN <<s[1], s[2], s[3], s[4] + 1>> ELSE NextDay(s[1], s[2], s[3]) \o <<0>>

(* 0 is Monday; 1 January 1600 was a Saturday *)
WeekDay(y, m, d) == (DayNo(y, m, d) + 5) % 7

(* the partition of a slot: cut at the template's finest part *)
Grans == {"year", "month", "day", "hour"}
Cut(s, g) ==
    CASE g = "year" -> <<s[1], 1, 1, 0>>
      [] g = "month" -> <<s[1], s[2], 1, 0>>
      [] g = "day" -> <<s[1], s[2], s[3], 0>>
      [] g = "hour" -> s

(* is partition p in the range from a to b (in either order), inclusive *)
InRange(p, a, b, g) ==
    LET x == HourNo(Cut(a, g))  y == HourNo(Cut(b, g))  n == HourNo(Cut(p, g))
    IN IF x <= y THEN x <= n /\ n <= y ELSE y <= n /\ n <= x
=============================================================================
