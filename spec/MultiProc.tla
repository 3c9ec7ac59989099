----------------------------- MODULE MultiProc -----------------------------
(***************************************************************************)
(* What a read with several processes owes its consumer: the records of    *)
(* every blob once, in the order of the blob, whatever the order of the    *)
(* blobs; an end; and no process left behind.                              *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

LOCAL Rng(s) == {s[i] : i \in 1..Len(s)}
LOCAL Cnt(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* the records there are once, whose order can be seen *)
Singles(blobs) == LET all == Cat(blobs) IN {x \in Rng(all) : Cnt(all, x) = 1}

(* the records which are from a blob, in the order returned *)
Of(got, blob, single) == SelectSeq(got, LAMBDA x : x \in Rng(blob) \cap single)
In(blob, single) == SelectSeq(blob, LAMBDA x : x \in single)

(* everything was returned *)
All(blobs, got) ==
    LET all == Cat(blobs)
        single == Singles(blobs)
    IN /\ Len(got) = Len(all)
       /\ \A x \in Rng(all) : Cnt(got, x) = Cnt(all, x)
       /\ \A i \in 1..Len(blobs) : Of(got, blobs[i], single) = In(blobs[i], single)

(* a start of something like that was returned *)
Some(blobs, got) ==
    LET all == Cat(blobs)
        single == Singles(blobs)
    IN /\ \A x \in Rng(got) : Cnt(got, x) <= Cnt(all, x)
       /\ \A i \in 1..Len(blobs) : LET o == Of(got, blobs[i], single)
                                         b == In(blobs[i], single)
                                    IN Len(o) <= Len(b) /\ o = SubSeq(b, 1, Len(o))
=============================================================================
