---------------------------- MODULE MC_Calendar ----------------------------
(***************************************************************************)
(* A walk through the days: what Calendar and Iso say of a day from its    *)
(* date agrees with counting the days, through a cycle of the calendar     *)
(* (400 years).                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
C == INSTANCE Calendar
I == INSTANCE Iso
W == INSTANCE Weeks

CONSTANTS From, To, BUG

VARIABLES y, m, d, n, wd, week
vars == <<y, m, d, n, wd, week>>

Init == y = From /\ m = 1 /\ d = 1 /\ n = C!DayNo(From, 1, 1) /\ wd = C!WeekDay(From, 1, 1) /\ week = W!Week(From, 1, 1)
Step ==
    LET last == IF BUG = "leap" /\ m = 2 THEN (IF y % 4 = 0 THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0) THEN 29 ELSE 28) ELSE 31
        nd == IF d < last THEN <<y, m, d + 1>> ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
        w == (wd + 1) % 7
    IN /\ y < To
       /\ y' = nd[1] /\ m' = nd[2] /\ d' = nd[3] /\ n' = n + 1 /\ wd' = w
       (* on Mondays a week begins, which is a first if 4 January is in it *)
       /\ week' = IF w # 0 THEN week
                  ELSE IF (nd[2] = 12 /\ nd[3] >= 29) \/ (nd[2] = 1 /\ nd[3] <= 4) THEN 1 ELSE week + 1
Next == Step
Spec == Init /\ [][Next]_vars

Contract ==
    /\ C!IsDate(y, m, d)
    /\ C!DayNo(y, m, d) = n
    /\ C!WeekDay(y, m, d) = wd
    /\ W!Week(y, m, d) = week
    /\ I!DayAfter(2000, 1, 1, n - C!DayNo(2000, 1, 1)) = <<y, m, d>>
    /\ ~C!IsDate(y, m, 32) /\ ~C!IsDate(y, 13, d) /\ ~C!IsDate(y, m, 0)
    /\ d = C!DaysIn(y, m) => ~C!IsDate(y, m, d + 1)
=============================================================================
