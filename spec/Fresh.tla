------------------------------- MODULE Fresh --------------------------------
(***************************************************************************)
(* Freshness.  Day 0 is the day asked for, day k is k days before it.      *)
(* D[k+1] is the set of objects of day k (see Frames).  limit is in hours; *)
(* -1 when there is none.                                                  *)
(* The result is <<"data", day>> or <<"notfound">>.                        *)
(***************************************************************************)
EXTENDS Frames, Integers, Sequences

HasData(O) == \E S \in Servings(O, <<>>) : \E o \in S : o.kind = "data"
WithData(D) == {k \in 0..(Len(D) - 1) : HasData(D[k + 1])}
Newest(S) == CHOOSE k \in S : \A j \in S : k <= j

FreshResult(D, limit) ==
    LET ds == WithData(D)
    IN IF ds = {} THEN <<"notfound">>
       ELSE IF Newest(ds) = 0 THEN <<"data", 0>>
       ELSE IF limit >= 0 /\ Newest(ds) * 24 <= limit THEN <<"data", Newest(ds)>>
       ELSE <<"notfound">>
=============================================================================
