-------------------------------- MODULE Xml --------------------------------
(***************************************************************************)
(* What the record of an XML document is.                                  *)
(*                                                                         *)
(* An element is a record [tag, attrs, text, kids]: attrs a sequence of    *)
(* <<name, text>>, text the text before its first child (a sequence of     *)
(* code points), kids a sequence of elements.  A value is one of           *)
(*   [t |-> "n"]                 null                                      *)
(*   [t |-> "s", v |-> text]     a text                                    *)
(*   [t |-> "l", v |-> values]   a list                                    *)
(*   [t |-> "d", v |-> pairs]    a record, a sequence of <<name, value>>   *)
(*                                                                         *)
(* An element with neither attributes nor children is its text, or null;   *)
(* any other is a record with a field for each attribute, called "@" and   *)
(* its name, one for each name its children have - the child's value, or   *)
(* the list of the children's values where there are more of the name - and*)
(* "#text" where it has text.  White space around a text isn't part of it. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Space == {9, 10, 13, 32}
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN s
            ELSE IF s[1] \in Space THEN Strip(Tail(s))
            ELSE IF s[Len(s)] \in Space THEN Strip(SubSeq(s, 1, Len(s) - 1))
            ELSE s

Tags(kids) == {kids[i].tag : i \in 1..Len(kids)}
Named(kids, t) == SelectSeq(kids, LAMBDA k : k.tag = t)
At(name) == "@" \o name

Fields(e) == {At(e.attrs[i][1]) : i \in 1..Len(e.attrs)} \cup Tags(e.kids) \cup (IF Strip(e.text) = <<>> THEN {} ELSE {"#text"})
Names(pairs) == {pairs[i][1] : i \in 1..Len(pairs)}
Of(pairs, name) == pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = name][2]

IsText(v, s) == v.t = "s" /\ v.v = s

RECURSIVE IsValue(_, _)
(* is v the value of the element e *)
IsValue(e, v) ==
    IF e.attrs = <<>> /\ e.kids = <<>>
    THEN IF Strip(e.text) = <<>> THEN v.t = "n" \/ (e.text # <<>> /\ IsText(v, <<>>))
         ELSE IsText(v, Strip(e.text))
    ELSE /\ v.t = "d"
         /\ Len(v.v) = Cardinality(Fields(e))
         /\ Names(v.v) = Fields(e)
         /\ \A i \in 1..Len(e.attrs) : IsText(Of(v.v, At(e.attrs[i][1])), e.attrs[i][2])
         /\ Strip(e.text) # <<>> => IsText(Of(v.v, "#text"), Strip(e.text))
         /\ \A t \in Tags(e.kids) :
                LET ks == Named(e.kids, t)
                    x == Of(v.v, t)
                IN IF Len(ks) = 1 THEN IsValue(ks[1], x)
                   ELSE x.t = "l" /\ Len(x.v) = Len(ks) /\ \A i \in 1..Len(ks) : IsValue(ks[i], x.v[i])

(* a document is a record of its one element *)
IsDocument(e, v) == v.t = "d" /\ Len(v.v) = 1 /\ v.v[1][1] = e.tag /\ IsValue(e, v.v[1][2])

(* What's in a document and in a record, independent of the rules above: the texts there are at each path, in document order *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

RECURSIVE TreeLeaves(_, _)
TreeLeaves(e, path) ==
    LET p == path \o <<e.tag>> IN
    IF e.attrs = <<>> /\ e.kids = <<>> THEN << <<p, Strip(e.text)>> >>
    ELSE (IF Strip(e.text) = <<>> THEN <<>> ELSE << <<Append(p, "#text"), Strip(e.text)>> >>)
         \o [i \in 1..Len(e.attrs) |-> <<Append(p, At(e.attrs[i][1])), e.attrs[i][2]>>]
         \o Flatten([i \in 1..Len(e.kids) |-> TreeLeaves(e.kids[i], p)])

RECURSIVE ValueLeaves(_, _)
ValueLeaves(v, p) ==
    CASE v.t = "n" -> << <<p, <<>> >> >>
      [] v.t = "s" -> << <<p, v.v>> >>
      [] v.t = "l" -> Flatten([i \in 1..Len(v.v) |-> ValueLeaves(v.v[i], p)])
      [] v.t = "d" -> Flatten([i \in 1..Len(v.v) |-> ValueLeaves(v.v[i][2], Append(p, v.v[i][1]))])

AtPath(leaves, p) == SelectSeq(leaves, LAMBDA l : l[1] = p)
SameLeaves(e, v) ==
    LET a == TreeLeaves(e, <<>>)
        b == ValueLeaves(v, <<>>)
    IN /\ Len(a) = Len(b)
       /\ \A i \in 1..Len(a) : AtPath(a, a[i][1]) = AtPath(b, a[i][1])
=============================================================================
