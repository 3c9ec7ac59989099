------------------------------- MODULE MC_Xml -------------------------------
(***************************************************************************)
(* The design of the reading of a document: its parts come one after the   *)
(* other, and the record is built on a stack of the elements which are     *)
(* open, each with what has been found in it so far.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Xml
CONSTANTS Deep, Wide, BUG

Texts == {<<>>, <<97>>, <<32, 98, 10>>}
Leaves(ts) == [tag : ts, attrs : {<<>>, << <<"x", <<99>> >> >>}, text : Texts, kids : {<<>>}]
Small == [tag : {"p"}, attrs : {<<>>}, text : {<<97>>}, kids : {<<>>}]
         \cup [tag : {"p", "q"}, attrs : {<<>>}, text : {<<>>}, kids : {<<>>, << [tag |-> "p", attrs |-> <<>>, text |-> <<98>>, kids |-> <<>>] >>}]
Rows(s) == UNION {[1..n -> s] : n \in 1..Wide}
Trees == Leaves({"p"})
         \cup [tag : {"p"}, attrs : {<<>>, << <<"x", <<>> >>, <<"y", <<97>> >> >>}, text : {<<>>, <<97>>}, kids : Rows(Leaves({"p", "q"}))]
         \cup (IF Deep THEN [tag : {"r"}, attrs : {<<>>}, text : {<<>>}, kids : Rows([tag : {"p", "q"}, attrs : {<<>>}, text : {<<>>}, kids : Rows(Small)])] ELSE {})

RECURSIVE Parts(_)
Parts(e) == << <<"open", e>> >>
            \o (IF e.text = <<>> THEN <<>> ELSE << <<"text", e.text>> >>)
            \o Flatten([i \in 1..Len(e.kids) |-> Parts(e.kids[i])])
            \o << <<"close", e>> >>

VARIABLES tree, todo, stack, done
vars == <<tree, todo, stack, done>>

Init == tree \in Trees /\ todo = Parts(tree) /\ stack = <<>> /\ done = [t |-> "n"]

Str(s) == [t |-> "s", v |-> s]
Null == [t |-> "n"]
Put(pairs, name, v) ==          \* adds a child's value
    IF name \notin Names(pairs) THEN Append(pairs, <<name, [t |-> "l", v |-> <<v>>]>>)
    ELSE [i \in 1..Len(pairs) |->
            IF pairs[i][1] # name THEN pairs[i]
            ELSE <<name, [t |-> "l", v |-> IF BUG = "last" THEN <<v>>
                                           ELSE IF BUG = "front" THEN <<v>> \o pairs[i][2].v
                                           ELSE Append(pairs[i][2].v, v)]>>]
Single(v) == IF v.t = "l" /\ (Len(v.v) = 1 /\ BUG # "lists") THEN v.v[1] ELSE v
Text(s) == IF BUG = "raw" THEN s ELSE Strip(s)

Value(f) ==
    IF f.attrs = <<>> /\ f.kids = <<>> THEN IF f.text = <<>> THEN Null ELSE Str(Text(f.text))
    ELSE [t |-> "d",
          v |-> [i \in 1..Len(f.kids) |-> <<f.kids[i][1], Single(f.kids[i][2])>>]
                \o (IF BUG = "attrs" /\ f.kids # <<>> THEN <<>> ELSE [i \in 1..Len(f.attrs) |-> <<(IF BUG = "bare" THEN "" ELSE "@") \o f.attrs[i][1], Str(f.attrs[i][2])>>])
                \o (IF Text(f.text) = <<>> \/ (BUG = "mixed" /\ f.kids # <<>>) THEN <<>> ELSE << <<"#text", Str(Text(f.text))>> >>)]

Open == /\ Head(todo)[1] = "open"
        /\ stack' = Append(stack, [tag |-> Head(todo)[2].tag, attrs |-> Head(todo)[2].attrs, text |-> <<>>, kids |-> <<>>])
        /\ UNCHANGED done
Chars == /\ Head(todo)[1] = "text"
         /\ stack' = [stack EXCEPT ![Len(stack)].text = @ \o Head(todo)[2]]
         /\ UNCHANGED done
Close == /\ Head(todo)[1] = "close"
         /\ LET f == stack[Len(stack)]
                v == Value(f)
                rest == SubSeq(stack, 1, Len(stack) - 1)
            IN IF rest = <<>> THEN stack' = <<>> /\ done' = [t |-> "d", v |-> << <<f.tag, v>> >>]
               ELSE stack' = [rest EXCEPT ![Len(rest)].kids = Put(@, f.tag, v)] /\ UNCHANGED done
Next == /\ todo # <<>>
        /\ todo' = Tail(todo)
        /\ UNCHANGED tree
        /\ Open \/ Chars \/ Close
Spec == Init /\ [][Next]_vars

Contract == todo = <<>> => IsDocument(tree, done) /\ SameLeaves(tree, done)
(* the rules let nothing but the document's content through: a record with one text exchanged isn't the document's *)
Emit == todo = <<>> => PrintT(ToJson([tree |-> tree]))
=============================================================================
