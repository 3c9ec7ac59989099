------------------------------- MODULE MC_Sets -------------------------------
(***************************************************************************)
(* The design of chained operations: rows are pulled one at a time through *)
(* stages, which each keep what they need to know of the rows before it.   *)
(* At the end, what came out is the composition of the operations.         *)
(* Prints rows and chains for replay.                                      *)
(***************************************************************************)
EXTENDS Rel, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, MaxRows, MaxChain

Vals == {Null, <<2, 0>>, <<2, 1000>>}
Rows == {[_ |-> Null, a |-> x, b |-> y] : x \in Vals, y \in {<<2, 0>>, <<2, 1000>>}} \cup {[_ |-> Null, b |-> <<2, 0>>]}
Ops == {[k |-> "take", n |-> n] : n \in 0..2}
       \cup {[k |-> "distinct", cols |-> c] : c \in {<<>>, <<"a">>}}
       \cup {[k |-> "filter", f |-> "a", c |-> c, v |-> <<2, 0>>] : c \in {"=", ">"}}
       \cup {[k |-> "select", cols |-> <<"a">>]}

VARIABLES rows, chain, pos, mem, out, stop
vars == <<rows, chain, pos, mem, out, stop>>

SeqsOf(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
(* what a stage knows: the keys seen, and the number of rows passed *)
Fresh == [seen |-> {}, n |-> 0]

KeyFor(o, r) == IF o.cols = <<>> THEN <<"row", r>> ELSE <<"col", IF "a" \in DOMAIN r THEN r.a ELSE <<-1>>>>
(* <<row, or none; what the stage knows now>> *)
Through1(o, r, m) ==
    CASE o.k = "select" -> <<<<Project(r, o.cols)>>, m>>
      [] o.k = "filter" -> <<IF LET x == Get(r, o.f) IN ~IsNull(x) /\ Compare(o.c, x, o.v) THEN <<r>> ELSE <<>>, m>>
      [] o.k = "distinct" -> IF KeyFor(o, r) \in m.seen THEN <<<<>>, m>> ELSE <<<<r>>, [m EXCEPT !.seen = @ \cup {KeyFor(o, r)}]>>
      [] o.k = "take" -> IF m.n >= (IF BUG = "takelate" THEN o.n + 1 ELSE o.n) THEN <<<<>>, m>> ELSE <<<<r>>, [m EXCEPT !.n = @ + 1]>>
RECURSIVE Pull(_, _, _)
Pull(i, r, ms) ==
    IF i > Len(chain) THEN <<<<r>>, ms>>
    ELSE LET slot == IF BUG = "sharedseen" THEN 1 ELSE i
             x == Through1(chain[i], r, ms[slot])
             ms2 == [ms EXCEPT ![slot] = x[2]]
         IN IF x[1] = <<>> /\ ~(BUG = "filterlater" /\ chain[i].k = "filter" /\ i > 1) THEN <<<<>>, ms2>>
            ELSE Pull(i + 1, IF x[1] = <<>> THEN r ELSE x[1][1], ms2)

Init == /\ rows \in SeqsOf(Rows, 0, MaxRows) /\ chain \in SeqsOf(Ops, 0, MaxChain)
        /\ pos = 0 /\ mem = [i \in 1..(IF chain = <<>> THEN 1 ELSE Len(chain)) |-> Fresh] /\ out = <<>> /\ stop = FALSE
(* once a take has all of its rows nothing needs to be pulled *)
Full == \E i \in 1..Len(chain) : chain[i].k = "take" /\ mem[i].n >= chain[i].n
Next == /\ pos < Len(rows) /\ ~stop
        /\ UNCHANGED <<rows, chain>>
        /\ LET x == Pull(1, rows[pos + 1], mem) IN /\ mem' = x[2] /\ out' = out \o x[1]
        /\ pos' = pos + 1 /\ stop' = (BUG = "" /\ Full')
Spec == Init /\ [][Next]_vars

Contract == (pos = Len(rows) \/ stop) => out = Chain(chain, rows)
Emit == pos = Len(rows) => PrintT(ToJson([rows |-> rows, chain |-> chain]))
=============================================================================
