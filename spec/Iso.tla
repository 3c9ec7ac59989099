-------------------------------- MODULE Iso --------------------------------
(***************************************************************************)
(* Dates as texts, deltas as texts, and ranges of hours.                   *)
(*                                                                         *)
(* A text is a sequence of code points.  Iso(s) is the point in time which *)
(* s is, <<y, m, d, h, mi, s>>, or <<>> if it's none: the forms are        *)
(*                                                                         *)
(*      DATE                 DATE  =  YYYY sep MM sep DD                   *)
(*      DATE t HH sep MM     sep   =  "-" or ":"       t = "T" or " "      *)
(*      DATE t HH sep MM sep SS anything                                   *)
(*                                                                         *)
(* with a "Z" or a "+" and anything at the end, of 10 to 33 characters     *)
(* (10 to 28, without what's from the "+").                                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Calendar

LOCAL Digit(c) == c >= 48 /\ c <= 57
LOCAL AllDigits(s) == \A i \in 1..Len(s) : Digit(s[i])
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE 10 * Num(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48
LOCAL Sep(c) == c \in {45, 58}

(* what's before a last "Z" *)
NoZ(s) == IF s # <<>> /\ s[Len(s)] = 90 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
LOCAL PlusAt(s) == CHOOSE i \in 1..Len(s) : s[i] = 43 /\ \A j \in 1..(i - 1) : s[j] # 43
LOCAL HasPlus(s) == \E i \in 1..Len(s) : s[i] = 43
NoOffset(s) == IF HasPlus(s) THEN SubSeq(s, 1, PlusAt(s) - 1) ELSE s

(* the places (from, to) of the numbers *)
LOCAL Date == <<<<1, 4>>, <<6, 7>>, <<9, 10>>>>
LOCAL Minutes == Date \o <<<<12, 13>>, <<15, 16>>>>
LOCAL Seconds == Minutes \o <<<<18, 19>>>>
LOCAL At(s, places) == [i \in 1..Len(places) |-> SubSeq(s, places[i][1], places[i][2])]
LOCAL Nums(s, places) ==
    LET a == At(s, places) IN
    IF \A i \in 1..Len(a) : AllDigits(a[i]) THEN [i \in 1..6 |-> IF i > Len(a) THEN 0 ELSE Num(a[i])] ELSE <<>>
LOCAL Real(n) == n # <<>> /\ IsDate(n[1], n[2], n[3]) /\ n[4] <= 23 /\ n[5] <= 59 /\ n[6] <= 59
LOCAL IfReal(n) == IF Real(n) THEN n ELSE <<>>

LOCAL DateForm(b) == Len(b) >= 10 /\ Sep(b[5]) /\ Sep(b[8])
LOCAL MinuteForm(b) == DateForm(b) /\ Len(b) >= 16 /\ b[11] \in {84, 32} /\ Sep(b[14])
Iso(s) ==
    IF Len(s) \notin 10..33 THEN <<>>
    ELSE LET z == NoZ(s)
             b == NoOffset(z)
         IN IF HasPlus(z) /\ Len(b) \notin 10..28 THEN <<>>
            ELSE IF DateForm(b) /\ Len(b) = 10 THEN IfReal(Nums(b, Date))
            ELSE IF MinuteForm(b) /\ Len(b) = 16 THEN IfReal(Nums(b, Minutes))
            ELSE IF MinuteForm(b) /\ Len(b) >= 19 /\ Sep(b[17]) THEN IfReal(Nums(b, Seconds))
            ELSE <<>>

(* a number of seconds since 1970, as a point in time *)
RECURSIVE DateOf(_, _)
LOCAL DateOf(n, y) == \* day n of year y, from 0
    LET len == IF Leap(y) THEN 366 ELSE 365 IN
    IF n < 0 THEN DateOf(n + (IF Leap(y - 1) THEN 366 ELSE 365), y - 1)
    ELSE IF n >= len THEN DateOf(n - len, y + 1)
    ELSE LET m == CHOOSE k \in 1..12 : DayOfYear(y, k, 1) <= n + 1 /\ n + 1 < DayOfYear(y, k, 1) + DaysIn(y, k)
         IN <<y, m, n + 2 - DayOfYear(y, m, 1)>>
DayAfter(y, m, d, n) == DateOf(DayOfYear(y, m, d) - 1 + n, y)
Stamp(n) ==
    LET day == n \div 86400  sec == n % 86400
    IN DateOf(day, 1970) \o <<sec \div 3600, (sec \div 60) % 60, sec % 60>>

---------------------------------------------------------------------------
(* deltas: the numbers named, as <<days, seconds>> with 0 <= seconds < 86400; units are d, h, m, s in this order *)
LOCAL Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
RECURSIVE DigitsEnd(_, _)
LOCAL DigitsEnd(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
(* <<the number of unit u named at place i, the place after it>> *)
LOCAL Named(s, i, u) ==
    LET neg == i <= Len(s) /\ s[i] = 45
        from == IF neg THEN i + 1 ELSE i
        e == DigitsEnd(s, from)
    IN IF e > from /\ e <= Len(s) /\ Lower(s[e]) = u
       THEN <<(IF neg THEN -1 ELSE 1) * Num(SubSeq(s, from, e - 1)), e + 1>>
       ELSE <<0, i>>
Delta(s) ==
    LET d == Named(s, 1, 100)
        h == Named(s, d[2], 104)
        m == Named(s, h[2], 109)
        t == Named(s, m[2], 115)
        secs == h[1] * 3600 + m[1] * 60 + t[1]
    IN <<d[1] + (secs \div 86400), secs % 86400>>

---------------------------------------------------------------------------
(* ranges: a and b are points in time; whole is whether b is a day, which is covered to its end *)
Slot(t) == <<t[1], t[2], t[3], t[4]>>
RangeEnd(b, whole) == IF whole THEN <<b[1], b[2], b[3], 23>> ELSE Slot(b)
IsRange(a, b, whole, got) ==
    LET z == RangeEnd(b, whole) IN
    /\ Len(got) = HourNo(z) - HourNo(Slot(a)) + 1
    /\ \A i \in 1..Len(got) : Len(got[i]) = 6 /\ got[i][5] = 0 /\ got[i][6] = 0
    /\ Slot(got[1]) = Slot(a)
    /\ \A i \in 2..Len(got) : Slot(got[i]) = NextHour(Slot(got[i - 1]))
    /\ Slot(got[Len(got)]) = z
Backwards(a, b, whole) == HourNo(RangeEnd(b, whole)) < HourNo(Slot(a))
=============================================================================
