------------------------------- MODULE Weeks -------------------------------
(* ISO 8601 weeks: they begin on Mondays, and the first of a year is the one with its first Thursday *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Calendar

(* the Monday of the first week of a year *)
LOCAL FirstMonday(y) == LET wd == WeekDay(y, 1, 1) IN DayNo(y, 1, 1) + (IF wd <= 3 THEN -wd ELSE 7 - wd)
Week(y, m, d) ==
    LET n == DayNo(y, m, d)
        in == IF n < FirstMonday(y) THEN y - 1 ELSE IF n >= FirstMonday(y + 1) THEN y + 1 ELSE y
    IN (n - FirstMonday(in)) \div 7 + 1
=============================================================================
