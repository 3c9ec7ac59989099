----------------------------- MODULE MC_Frames ------------------------------
(***************************************************************************)
(* The life of a date folder: batches (re)start, write, complete, die and  *)
(* are ignored in any order, in up to MaxFrames frames, among plain blobs  *)
(* and BACKOUT data.  The reader's algorithm (walk back from the newest    *)
(* frame) has to serve what the definition says at every moment.           *)
(* BUG breaks the algorithm.  Emit prints every folder reached.            *)
(***************************************************************************)
EXTENDS Frames, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, MaxFrames, MaxData, Plain

VARIABLE O

Obj(f, k, i) == [by |-> "", part |-> "", frame |-> f, kind |-> k, recs |-> <<f, i>>]

Init == O = {}

DataIn(f) == {o \in O : o.frame = f /\ o.kind = "data"}
Put(o) == o \notin O /\ O' = O \cup {o}

Next == \/ \E f \in 1..MaxFrames : \E i \in 1..MaxData :
              Cardinality(DataIn(f)) = i - 1 /\ Put(Obj(f, "data", i))
        \/ \E f \in 1..MaxFrames : Put(Obj(f, "complete", 0))
        \/ \E f \in 1..MaxFrames : Put(Obj(f, "ignore", 0))
        \/ Plain /\ \E k \in {"data", "backout", "complete"} : Put(Obj(0, k, 1))
        \/ Plain /\ \E f \in 1..MaxFrames : Put(Obj(f, "backout", 1))

Spec == Init /\ [][Next]_O

(* the algorithm *)
RECURSIVE Walk(_, _)
Walk(S, fs) ==
    IF fs = {} THEN 0
    ELSE LET f == Max(fs)
             okC == Complete(S, f) \/ (BUG = "anycomplete" /\ \E o \in S : o.kind = "complete")
             okI == ~Ignored(S, f) \/ BUG = "noignore"
         IN IF okC /\ okI THEN f
            ELSE IF BUG = "onestep" THEN (IF fs \ {f} = {} THEN 0 ELSE Max(fs \ {f}))
            ELSE Walk(S, fs \ {f})

Algo ==
    LET S == IF BUG = "backout" THEN O ELSE {o \in O : o.kind # "backout"}
        fs == {o.frame : o \in S} \ {0}
        f == Walk(S, fs)
    IN IF fs = {} THEN {o \in S : o.kind \in {"data", "backout"}}
       ELSE IF f = 0 THEN (IF BUG = "fallback" THEN {o \in S : o.kind = "data" /\ o.frame = 0} ELSE {})
       ELSE {o \in S : o.kind \in {"data", "backout"} /\ (o.frame = f \/ (BUG = "plainlater" /\ o.frame = 0))}

Agree == Algo = ServedFolder(O)

(* never data of two frames; never data of a frame which isn't valid *)
OneFrame == LET s == ServedFolder(O) IN
    /\ Cardinality({o.frame : o \in s}) <= 1
    /\ \A o \in s : o.frame # 0 => o.frame \in Valid(O)

(* completing a newer frame, or ignoring the one served, is the only way to change it *)
Stable == [][ (ServedFolder(O) # ServedFolder(O') /\ FramesOf(O) # {} /\ Valid(O) # {}) =>
              \/ Max(Valid(O)) \notin Valid(O')
              \/ Max(Valid(O')) > Max(Valid(O))
              \/ \E o \in O' \ O : o.kind = "data" /\ o.frame = Max(Valid(O)) ]_O

Emit == PrintT(ToJson(O))
=============================================================================
