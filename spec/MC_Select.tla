----------------------------- MODULE MC_Select -----------------------------
(***************************************************************************)
(* The design of select expressions: the words of the text are put         *)
(* together again to functions and their arguments, a word at a time, with *)
(* a stack of what's open; then every row is put through what was built.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
S == INSTANCE Select

CONSTANTS NFields, Depth, BUG

(* columns t, s (of text) and n (of numbers), a constant, functions of text: UPPER, CONCAT, LEN *)
T == [k |-> "col", name |-> <<116>>, src |-> <<116>>]
N == [k |-> "col", name |-> <<110>>, src |-> <<110>>]
C == [k |-> "const", src |-> <<39, 120, 39>>, v |-> <<3, 120>>]
FName(f) == CASE f = "UPPER" -> <<85, 80, 80, 69, 82>> [] f = "CONCAT" -> <<67, 79, 78, 67, 65, 84>> [] f = "LEN" -> <<76, 69, 78>> [] f = "ISNONE" -> <<73, 83, 78, 79, 78, 69>>
Fn(f, a) == [k |-> "fn", f |-> f, name |-> FName(f), a |-> a]
RECURSIVE Exprs(_)
Exprs(d) == IF d = 0 THEN {T, N, C}
            ELSE LET E == Exprs(d - 1) IN
                 E \cup {Fn("UPPER", <<e>>) : e \in E} \cup {Fn("ISNONE", <<e>>) : e \in E}
                   \cup {Fn("CONCAT", <<p[1], p[2]>>) : p \in (IF d = 1 THEN E \X E ELSE {T, Fn("UPPER", <<T>>)} \X E)}
Names == {<<>>, <<117>>, <<116>>}     \* no name, u, t
Fields == {[e |-> e, as |-> a] : e \in Exprs(Depth), a \in Names} \cup {[e |-> [k |-> "all"], as |-> <<>>]}

Rows == <<<<<< <<116>>, <<3, 97>> >>, << <<110>>, <<2, 7>> >>>>,
          <<<< <<116>>, <<0>> >>>>,
          <<<< <<110>>, <<2, 5>> >>, << <<116>>, <<3, 97>> >>>>>>

(* the words of an expression *)
W(w, x) == [w |-> w, x |-> x]
RECURSIVE Words(_), Args(_)
Args(a) == IF Len(a) = 1 THEN Words(a[1]) ELSE Words(a[1]) \o <<W("comma", 0)>> \o Args(Tail(a))
Words(e) == IF e.k = "fn" THEN <<W("fn", e.f), W("open", 0)>> \o Args(e.a) \o <<W("close", 0)>> ELSE <<W("leaf", e)>>
FieldWords(f) == Words(f.e) \o (IF f.as = <<>> THEN <<>> ELSE <<W("as", f.as)>>)
RECURSIVE AllWords(_)
AllWords(fs) == IF Len(fs) = 1 THEN FieldWords(fs[1]) ELSE FieldWords(fs[1]) \o <<W("comma", 0)>> \o AllWords(Tail(fs))

VARIABLES fields, words, stack, row, out, memo
vars == <<fields, words, stack, row, out, memo>>
Init == fields = <<>> /\ words = <<>> /\ stack = <<>> /\ row = -1 /\ out = <<>> /\ memo = <<>>

Add == /\ row = -1 /\ Len(fields) < NFields
       /\ \E f \in Fields : fields' = Append(fields, f)
       /\ UNCHANGED <<words, stack, row, out, memo>>
(* the stack begins with the fields themselves, [f, a]: a function and its arguments so far *)
Start == /\ row = -1 /\ Len(fields) = NFields /\ row' = 0
         /\ words' = AllWords(fields) /\ stack' = <<[f |-> "", a |-> <<>>]>>
         /\ UNCHANGED <<fields, out, memo>>
Push(st, x) == [st EXCEPT ![Len(st)].a = Append(@, x)]
Item(e) == [e |-> e, as |-> <<>>]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
Es(a) == [i \in 1..Len(a) |-> a[i].e]
Take == /\ row = 0 /\ words # <<>>
        /\ words' = Tail(words)
        /\ LET w == Head(words)
               top == stack[Len(stack)]
           IN stack' = CASE w.w = "leaf" -> Push(stack, Item(w.x))
                         [] w.w = "fn" -> Append(stack, [f |-> w.x, a |-> <<>>])
                         [] w.w = "close" -> (IF BUG = "flat" /\ Len(stack) > 2
                                              THEN [Pop(stack) EXCEPT ![Len(stack) - 1].a = @ \o top.a]
                                              ELSE Push(Pop(stack), Item(Fn(top.f, Es(IF BUG = "lastarg" /\ Len(top.a) > 1 THEN Tail(top.a) ELSE top.a)))))
                         [] w.w = "as" -> (IF BUG = "noalias" /\ top.a[Len(top.a)].e.k # "fn" THEN stack
                                           ELSE [stack EXCEPT ![Len(stack)].a[Len(top.a)].as = w.x])
                         [] OTHER -> stack
        /\ UNCHANGED <<fields, row, out, memo>>
Built == stack[1].a
H(f, t) == t
Begin == row = 0 /\ words = <<>> /\ row' = 1 /\ UNCHANGED <<fields, words, stack, out, memo>>

(* the fields a row is put to, one after the other *)
Set(r, name, v) == LET at == {i \in 1..Len(r) : r[i][1] = name} IN
                   IF at = {} THEN Append(r, <<name, v>>) ELSE [r EXCEPT ![CHOOSE i \in at : TRUE] = <<name, v>>]
RECURSIVE Build(_, _, _, _)
Build(fs, r, acc, seen) ==
    IF fs = <<>> THEN acc
    ELSE LET f == Head(fs)
             hit == {i \in 1..Len(seen) : seen[i][1] = f.e}
             v == IF BUG = "memo" /\ hit # {} /\ f.e.k = "fn" THEN seen[CHOOSE i \in hit : TRUE][2] ELSE S!Eval(f.e, r, <<>>)
         IN IF f.e.k = "all" THEN Build(Tail(fs), r, (IF BUG = "star" THEN Set(acc, <<42>>, <<3, 42>>) ELSE acc), seen)
            ELSE Build(Tail(fs), IF BUG = "inplace" THEN Set(r, S!FieldName(f), v) ELSE r, Set(acc, S!FieldName(f), v), seen)
Evaluate ==
    /\ row >= 1 /\ row <= Len(Rows)
    /\ LET r == Rows[row] IN
       /\ out' = Append(out, Build(Built, r, IF S!Starred(Built) THEN r ELSE <<>>, memo))
       /\ memo' = IF BUG # "memo" THEN memo ELSE memo \o [i \in 1..Len(Built) |-> <<Built[i].e, IF Built[i].e.k = "all" THEN <<0>> ELSE S!Eval(Built[i].e, r, <<>>)>>]
    /\ row' = row + 1
    /\ UNCHANGED <<fields, words, stack>>
Next == Add \/ Start \/ Take \/ Begin \/ Evaluate
Spec == Init /\ [][Next]_vars

Contract == /\ row >= 1 => Len(stack) = 1 /\ Built = fields
            /\ \A i \in 1..Len(out) : S!IsSelected(fields, Rows[i], <<>>, out[i])
Emit == row = 1 => PrintT(ToJson([fields |-> fields]))
=============================================================================
