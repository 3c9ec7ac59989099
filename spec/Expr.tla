-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Filter expressions.  A tree is <<"atom", i>>, <<"not", t>>,             *)
(* <<"and", t, u>> or <<"or", t, u>>; an atom compares values of a row.    *)
(***************************************************************************)
EXTENDS Values
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Get(row, f) == IF f \in DOMAIN row THEN row[f] ELSE Null
Operand(o, row) == IF o.k = "f" THEN Get(row, o.f) ELSE o.v

AtomTrue(a, row) ==
    LET x == Operand(a.x, row) IN
    CASE a.o \in {"=", "<>", "<", "<=", ">", ">="} -> Compare(a.o, x, Operand(a.y, row))
      [] a.o = "is" -> x = a.y.v
      [] a.o = "isnot" -> x # a.y.v
      [] a.o = "like" -> Kind(x) = 3 /\ Like(Text(x), a.y.v)
      [] a.o = "notlike" -> ~(Kind(x) = 3 /\ Like(Text(x), a.y.v))
      [] a.o = "matches" -> Kind(x) = 3 /\ Matches(Text(x), RegexOf(a.y.v))
      [] a.o = "in" -> InList(x, a.ys)
      [] a.o = "contains" -> Contains(x, a.y.v)

(* the truth of a tree, given the set of its atoms which are true *)
RECURSIVE Truth(_, _)
Truth(t, on) == CASE t[1] = "atom" -> t[2] \in on
                  [] t[1] = "not" -> ~Truth(t[2], on)
                  [] t[1] = "and" -> Truth(t[2], on) /\ Truth(t[3], on)
                  [] t[1] = "or" -> Truth(t[2], on) \/ Truth(t[3], on)

ExprTrue(t, atoms, row) == Truth(t, {i \in 1..Len(atoms) : AtomTrue(atoms[i], row)})
=============================================================================
