------------------------------ MODULE MC_Params -----------------------------
(***************************************************************************)
(* The design: the rules are checked for every call, from a copy of the    *)
(* rules extended with those of the inner reader.  Calls follow one        *)
(* another; what is refused only depends on the call.                      *)
(* Prints sequences of calls for replay.                                   *)
(***************************************************************************)
EXTENDS Params, TLC, Json

CONSTANTS BUG, Params1, MaxCalls

Readers == {[more |-> {}, needs |-> {}], [more |-> {"data"}, needs |-> {"data"}], [more |-> {"extra"}, needs |-> {}]}
Names == Params1 \cup {"data", "extra"}

VARIABLES calls, extra, needed, last
vars == <<calls, extra, needed, last>>
Init == calls = <<>> /\ extra = {} /\ needed = {} /\ last = "none"

Verdict(c) ==
    LET def == Defined \cup c.more \cup (IF BUG = "leak" THEN extra ELSE {})
        req == Required \cup c.needs \cup (IF BUG = "leak" THEN needed ELSE {})
        clash == CASE BUG = "anyvalue" -> {x \in Conflicts : x[1] \in c.given /\ x[2] \in c.given}
                   [] BUG = "firstonly" -> LET s == {x \in Conflicts : x[1] \in c.true} IN
                                           IF Cardinality(s) > 1 THEN {} ELSE {x \in s : x[2] \in c.given}
                   [] OTHER -> Clash(c)
    IN IF (BUG # "unknown" /\ c.given \ def # {}) \/ (req \ c.given # {} /\ BUG # "missing") \/ clash # {} THEN "refused" ELSE "accepted"
Call(c) == /\ Len(calls) < MaxCalls
           /\ calls' = Append(calls, c) /\ last' = Verdict(c)
           /\ extra' = extra \cup c.more /\ needed' = needed \cup c.needs
Next == \E g \in SUBSET Names, r \in Readers : \E t \in SUBSET (g \ {"dataset", "data", "extra"}) :
          Call([given |-> g, true |-> t, more |-> r.more, needs |-> r.needs])
Spec == Init /\ [][Next]_vars

Contract == calls # <<>> => (last = "refused") = Refused(calls[Len(calls)])
SetSeq(S) == LET RECURSIVE f(_) f(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o f(s \ {x}) IN f(S)
Emit == Len(calls) = MaxCalls => PrintT(ToJson([i \in 1..MaxCalls |-> [given |-> SetSeq(calls[i].given), true |-> SetSeq(calls[i].true), more |-> SetSeq(calls[i].more), needs |-> SetSeq(calls[i].needs)]]))
=============================================================================
