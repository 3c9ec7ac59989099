------------------------------- MODULE MC_Iso -------------------------------
(***************************************************************************)
(* The design of parse_iso: tests of lengths and of the characters at some *)
(* places, in an order made for speed; on texts which are a few edits away *)
(* from the forms.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
I == INSTANCE Iso
C == INSTANCE Calendar

CONSTANTS MaxEdits, BUG

T(a) == a
(* the texts from which edits begin *)
D0 == <<50, 48, 50, 52, 45, 48, 50, 45, 50, 57>>                             \* 2024-02-29
D1 == <<49, 57, 48, 48, 58, 48, 50, 58, 50, 56>>                             \* 1900:02:28
M0 == D0 \o <<84, 50, 51, 58, 53, 57>>                                       \* T23:59
S0 == M0 \o <<58, 53, 57>>                                                   \* :59
Bases == {D0, D1, M0, S0, S0 \o <<46, 49, 50, 51>>, D0 \o <<84, 50, 48, 58, 52, 48>>, D0 \o <<90>>, M0 \o <<90>>, S0 \o <<90>>, S0 \o <<43, 48, 49, 58, 48, 48>>}
Chars == {48, 49, 51, 52, 57, 45, 58, 84, 32, 90, 43, 95, 46}

VARIABLES s, edits
vars == <<s, edits>>
Init == s \in Bases /\ edits = 0
Set(i, c) == s' = [s EXCEPT ![i] = c]
Drop(i) == s' = SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Add(i, c) == s' = SubSeq(s, 1, i - 1) \o <<c>> \o SubSeq(s, i, Len(s))
Next == /\ edits < MaxEdits /\ edits' = edits + 1
        /\ \E i \in 1..Len(s) : Drop(i) \/ \E c \in Chars : Set(i, c) \/ Add(i, c) \/ (i = Len(s) /\ s' = Append(s, c))
Spec == Init /\ [][Next]_vars

Digits(t) == \A i \in 1..Len(t) : t[i] \in 48..57
Fields(v, n) == [i \in 1..6 |-> LET p == <<<<1, 4>>, <<6, 7>>, <<9, 10>>, <<12, 13>>, <<15, 16>>, <<18, 19>>>>[i]
                                IN IF i > n THEN 0 ELSE I!Num(SubSeq(v, p[1], p[2]))]
AreDigits(v, n) == \A i \in 1..n : LET p == <<<<1, 4>>, <<6, 7>>, <<9, 10>>, <<12, 13>>, <<15, 16>>, <<18, 19>>>>[i] IN Digits(SubSeq(v, p[1], p[2]))
Make(v, n) ==
    IF ~AreDigits(v, n) /\ BUG # "digits" THEN <<>>
    ELSE LET f == Fields(v, n) IN
         IF /\ f[1] >= 1 /\ f[2] \in 1..12 /\ f[3] >= 1
            /\ f[3] <= (IF BUG = "leap" /\ f[2] = 2 THEN (IF f[1] % 4 = 0 THEN 29 ELSE 28) ELSE C!DaysIn(f[1], IF f[2] \in 1..12 THEN f[2] ELSE 1))
            /\ f[4] <= (IF BUG = "midnight" THEN 24 ELSE 23) /\ f[5] <= 59 /\ f[6] <= 59 THEN f ELSE <<>>
IsSep(c) == c \in {45, 58}
Positional(t) ==
    IF Len(t) < 10 \/ Len(t) > 33 THEN <<>>
    ELSE LET v1 == IF t[Len(t)] = 90 /\ BUG # "zulu" THEN SubSeq(t, 1, Len(t) - 1) ELSE t
             plus == \E i \in 1..Len(v1) : v1[i] = 43
             v == I!NoOffset(v1)
             n == Len(v)
         IN IF plus /\ (n < 10 \/ n > 28) THEN <<>>
            ELSE IF n < 8 \/ (~IsSep(v[5]) \/ ~IsSep(v[8])) THEN <<>>
            ELSE IF n = 10 \/ (BUG = "prefix" /\ n \in 10..15) THEN Make(v, 3)
            ELSE IF n >= 16
            THEN IF ~(v[11] \in {84, 32} /\ (IsSep(v[14]) \/ BUG = "sep")) THEN <<>>
                 ELSE IF n >= 19 /\ IsSep(v[17]) THEN Make(v, 6)
                 ELSE IF n = 16 \/ (BUG = "short" /\ n < 19) THEN Make(v, 5)
                 ELSE <<>>
            ELSE <<>>

Contract == Positional(s) = I!Iso(s)
Emit == PrintT(ToJson([s |-> s]))
=============================================================================
