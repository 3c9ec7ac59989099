------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* Which datasets may be read.  Names and prefixes are sequences of        *)
(* characters (code points).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Digits == 48..57
Letters == (65..90) \cup (97..122) \cup {233, 20013, 916}
Dot == 46  Slash == 47  Dash == 45  Under == 95  Space == 32

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Has(s, a, b) == \E i \in 1..(Len(s) - 1) : s[i] = a /\ s[i + 1] = b
(* a comment begins with two dashes *)
RECURSIVE Commented(_, _)
Commented(s, i) == IF i >= Len(s) THEN s ELSE IF s[i] = Dash /\ s[i + 1] = Dash THEN SubSeq(s, 1, i - 1) ELSE Commented(s, i + 1)
Slashed(s) == [i \in 1..Len(s) |-> IF s[i] = Dot THEN Slash ELSE s[i]]

(* the dataset of a FROM clause *)
Dataset(from) == Slashed(Commented(from, 1))
WellFormed(d) ==
    /\ d # <<>> /\ d[1] \in Letters
    /\ ~Has(d, Slash, Slash) /\ ~Has(d, Dash, Dash)
    /\ \A i \in 1..Len(d) : d[i] \in Letters \cup Digits \cup {Slash, Dash, Under}
Allowed(d, prefixes) == prefixes = <<>> \/ \E k \in 1..Len(prefixes) : StartsWith(d, prefixes[k])

(* what a call must come to *)
Outcome(how, name, prefixes) ==
    LET d == IF how = "sql" THEN Dataset(name) ELSE name IN
    IF how = "sql" /\ ~WellFormed(d) THEN "error"
    ELSE IF ~Allowed(d, prefixes) THEN "AccessDenied"
    ELSE "read"

(* the blobs of a dataset *)
Folder(d) == IF d[Len(d)] = Slash THEN d ELSE d \o <<Slash>>
=============================================================================
