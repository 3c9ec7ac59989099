-------------------------------- MODULE Route -------------------------------
(***************************************************************************)
(* Where a StreamWriter stores a record.  Texts are sequences of code      *)
(* points.  A template is a sequence of parts: text ("lit"), the value of  *)
(* a field ("fld") or a part of the time ("dat").  A record gives every    *)
(* field a sequence of texts (one, when the value isn't a list).           *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Keep(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 32
Clean(s) == SelectSeq(s, Keep)

Digit(n) == 48 + n
Two(n) == <<Digit((n \div 10) % 10), Digit(n % 10)>>
Four(n) == <<Digit(n \div 1000), Digit((n \div 100) % 10), Digit((n \div 10) % 10), Digit(n % 10)>>

(* t is <<year, month, day, hour, minute, second>> *)
TimePart(v, t) == CASE v = "yyyy" -> Four(t[1]) [] v = "mm" -> Two(t[2]) [] v = "dd" -> Two(t[3])
                    [] v = "HH" -> Two(t[4]) [] v = "MM" -> Two(t[5]) [] v = "SS" -> Two(t[6])

Fields(tpl) == {tpl[i].f : i \in {j \in 1..Len(tpl) : tpl[j].k = "fld"}}

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))

(* folders without a name vanish *)
RECURSIVE Norm(_)
Norm(s) == IF Len(s) < 2 THEN s
           ELSE IF s[1] = 47 /\ s[2] = 47 THEN Norm(Tail(s)) ELSE <<s[1]>> \o Norm(Tail(s))
NoEnd(s) == IF s # <<>> /\ s[Len(s)] = 47 THEN SubSeq(s, 1, Len(s) - 1) ELSE s

(* the choices: one text for each field *)
RECURSIVE Choices(_, _)
Choices(fs, vals) ==
    IF fs = {} THEN {<<>>}
    ELSE LET f == CHOOSE x \in fs : TRUE
         IN {c \o << <<f, vals[f][i]>> >> : c \in Choices(fs \ {f}, vals), i \in 1..Len(vals[f])}
Pick(c, f) == (CHOOSE i \in 1..Len(c) : c[i][1] = f)

Backout == <<47, 66, 65, 67, 75, 79, 85, 84>>

PathFor(tpl, c, t, bad) ==
    NoEnd(Norm(NoEnd(Join([i \in 1..Len(tpl) |->
        CASE tpl[i].k = "lit" -> tpl[i].v
          [] tpl[i].k = "dat" -> TimePart(tpl[i].f, t)
          [] tpl[i].k = "fld" -> Clean(c[Pick(c, tpl[i].f)][2])]))
        \o (IF bad THEN Backout ELSE <<>>)))

RoutePaths(tpl, vals, t, bad) == {PathFor(tpl, c, t, bad) : c \in Choices(Fields(tpl), vals)}
=============================================================================
