-------------------------------- MODULE Dnf ---------------------------------
(***************************************************************************)
(* DNF filters.  A filter is <<"atom", i>> (a tuple), <<"all", ts>> (a     *)
(* list of tuples) or <<"any", fs>> (a list of lists).                     *)
(***************************************************************************)
EXTENDS Values
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

PredTrue(a, row) ==
    LET x == IF a.f \in DOMAIN row THEN row[a.f] ELSE Null IN
    ~IsNull(x) /\
    (CASE a.o \in {"=", "<>", "<", "<=", ">", ">="} -> Compare(a.o, x, a.v)
       [] a.o = "like" -> Like(Text(x), a.v)
       [] a.o = "matches" -> Matches(Text(x), RegexOf(a.v))
       [] a.o = "in" -> InList(x, a.vs)
       [] a.o = "notin" -> ~InList(x, a.vs)
       [] a.o = "contains" -> Contains(x, a.v)
       [] a.o = "notcontains" -> ~Contains(x, a.v))

RECURSIVE DnfTruth(_, _)
DnfTruth(t, on) == CASE t[1] = "atom" -> t[2] \in on
                     [] t[1] = "all" -> \A i \in 1..Len(t[2]) : DnfTruth(t[2][i], on)
                     [] t[1] = "any" -> \E i \in 1..Len(t[2]) : DnfTruth(t[2][i], on)

DnfTrue(t, atoms, row) == DnfTruth(t, {i \in 1..Len(atoms) : PredTrue(atoms[i], row)})
=============================================================================
