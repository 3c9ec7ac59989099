------------------------------ MODULE T_Store -------------------------------
(* large sets: rows are the numbers of records (equal ones have the same)  *)
EXTENDS Judge, FiniteSets

Upto(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
(* chains work on positions *)
StepP(o, ps, k) ==
    CASE o.k = "take" -> Upto(ps, o.n)
      [] o.k = "all" -> ps
      [] o.k = "filter" -> SelectSeq(ps, LAMBDA p : IF o.c = "<" THEN k[p] < o.v[2] \div 1000 ELSE k[p] = o.v[2] \div 1000)
      [] o.k = "distinct" -> SelectSeq(ps, LAMBDA p : \A q \in 1..(p - 1) : k[q] # k[p] \/ (\A j \in 1..Len(ps) : ps[j] # q))
RECURSIVE ChainP(_, _, _)
ChainP(os, ps, k) == IF os = <<>> THEN ps ELSE ChainP(Tail(os), StepP(Head(os), ps, k), k)

AnswerP(e, rows, ps, a) ==
    LET ids == [i \in 1..Len(ps) |-> rows[ps[i]]] IN
    CASE e.k = "list" -> a = ids
      [] e.k = "first" -> a = Upto(ids, 1)
      [] e.k = "items" -> LET w == [i \in 1..Len(e.at) |-> ids[e.at[i] + 1]]
                               n(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x}) IN
                           IF \A i \in 1..(Len(e.at) - 1) : e.at[i] < e.at[i + 1] THEN a = w
                           ELSE (* any order *) Len(a) = Len(w) /\ \A i \in 1..Len(w) : n(a, w[i]) = n(w, w[i])
      [] e.k = "count" -> a = Len(ids)

Verdict(c) ==
    LET call(n) == c.scn.calls[n]
        all == [i \in 1..Len(c.scn.rows) |-> i]
        ok(n) == c.obs.answers[n].err = "" /\ AnswerP(call(n).end, c.scn.rows, ChainP(call(n).chain, all, c.scn.k), c.obs.answers[n].a)
    IN FirstBad([n \in 1..Len(c.scn.calls) |-> <<call(n).end.k, ok(n)>>] \o << <<"source", ~c.obs.changed>> >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
