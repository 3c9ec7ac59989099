----------------------------- MODULE MC_Writer -----------------------------
(***************************************************************************)
(* A design of a writer (the one in blob_writer.py / batch_writer.py),     *)
(* composed with the monitor of Writer.tla.  BUG names a deliberate        *)
(* mistake, to show that the monitor finds it; "none" is the real design.  *)
(* One step is one call by the application, with the store failing or not. *)
(* h is the history, which a simulation prints as a scenario to be         *)
(* replayed against the real code.                                         *)
(***************************************************************************)
EXTENDS Writer, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, Lens, Limit, MaxOps, Batch, Always, Parquet,
          Allow    \* what happens besides appends: invalid records, finalize, has_failure, faults

VARIABLES buf,    \* [records, with their lengths] not stored yet
          seenf, n, ops, mon, h

vars == <<buf, seenf, n, ops, mon, h>>
c == [batch |-> Batch, always |-> Always, limit |-> Limit, sized |-> ~Parquet]

Toks(b) == [i \in 1..Len(b) |-> b[i][1]]
Ls(b)   == [i \in 1..Len(b) |-> b[i][2]]
Put(b)  == [e |-> "put", recs |-> Toks(b), lens |-> Ls(b), folder |-> "f"]
Mark    == [e |-> "mark", folder |-> "f"]
Fail    == [e |-> "fail"]
Ret(ok) == [e |-> "ret", ok |-> ok]
FRet(ok) == [e |-> "fret", ok |-> ok]

RECURSIVE Feed(_, _)
Feed(S, evs) == IF evs = <<>> THEN S ELSE Feed(WStepAll(c, S, Head(evs)), Tail(evs))

Init == /\ buf = <<>> /\ seenf = FALSE /\ n = 0 /\ ops = 0 /\ mon = {WInit} /\ h = <<>>

Over(b) == IF BUG = "offbyone" THEN Sum(Ls(b)) >= Limit ELSE Sum(Ls(b)) > Limit

(* append of a record of length l, the store failing if down *)
Append1(l, down) ==
  LET id  == ops
      rec == <<id, l>>
      app == [e |-> "app", t |-> id, valid |-> TRUE]
  IN
  IF Parquet
  THEN LET b2 == Append(buf, rec) IN
       IF Sum(Ls(b2)) > Limit
       THEN IF down
            THEN /\ buf' = (IF BUG = "clearfirst" THEN <<>> ELSE b2)
                 /\ n' = n
                 /\ mon' = Feed(mon, <<app, Fail, Ret(FALSE)>>)
            ELSE /\ buf' = <<>> /\ n' = n + 1 /\ mon' = Feed(mon, <<app, Put(b2), Ret(TRUE)>>)
       ELSE /\ buf' = b2 /\ n' = n + 1 /\ mon' = Feed(mon, <<app, Ret(TRUE)>>)
  ELSE IF Over(buf)
       THEN IF down
            THEN /\ buf' = (IF BUG = "clearfirst" THEN <<>> ELSE buf)
                 /\ n' = n
                 /\ mon' = Feed(mon, <<app, Fail, Ret(FALSE)>>)
            ELSE /\ buf' = (IF BUG = "dropinflight" THEN <<>>
                            ELSE IF BUG = "keepold" THEN Append(buf, rec) ELSE <<rec>>)
                 /\ n' = n + 1
                 /\ mon' = Feed(mon, <<app, Put(buf), Ret(TRUE)>>)
       ELSE /\ buf' = Append(buf, rec) /\ n' = n + 1 /\ mon' = Feed(mon, <<app, Ret(TRUE)>>)

AppendInvalid ==
  /\ n' = n
  /\ buf' = (IF BUG = "keepinvalid" THEN Append(buf, <<ops, 1>>) ELSE buf)
  /\ mon' = Feed(mon, <<[e |-> "app", t |-> ops, valid |-> FALSE], Ret(FALSE)>>)
  /\ UNCHANGED seenf

(* finalize; d: storing data fails, m: storing the marker fails *)
Finalize(f, d, m) ==
  LET fin  == <<[e |-> "fin", failure |-> f]>>
      sf   == IF BUG = "forget" THEN f ELSE IF BUG = "latefail" /\ d /\ buf # <<>> THEN seenf ELSE seenf \/ f
      want == Batch /\ ~sf /\ (n > 0 \/ Always \/ BUG = "markempty")
      dfail == d /\ buf # <<>>
      pre  == IF BUG = "markfirst" /\ want /\ ~m THEN <<Mark>> ELSE <<>>
      data == IF buf = <<>> THEN <<>> ELSE IF d THEN <<Fail>> ELSE <<Put(buf)>>
      mk   == IF ~want \/ dfail \/ BUG = "markfirst" THEN <<>> ELSE IF m THEN <<Fail>> ELSE <<Mark>>
      ok   == (~dfail \/ BUG = "swallow") /\ ~(want /\ ~dfail /\ m /\ BUG # "markfirst")
  IN /\ buf' = (IF dfail /\ BUG # "clearfirst" THEN buf ELSE <<>>)
     /\ seenf' = sf /\ n' = n
     /\ mon' = Feed(mon, fin \o pre \o data \o mk \o <<FRet(ok)>>)

Hist(x) == h' = Append(h, x)
B(x) == IF x THEN 1 ELSE 0

Next ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ \/ \E l \in Lens, down \in IF "fault" \in Allow THEN BOOLEAN ELSE {FALSE} :
           Append1(l, down) /\ UNCHANGED seenf /\ Hist([op |-> "app", len |-> l, valid |-> 1, d |-> B(down), m |-> 0, f |-> 0])
     \/ "invalid" \in Allow /\ AppendInvalid /\ Hist([op |-> "app", len |-> 1, valid |-> 0, d |-> 0, m |-> 0, f |-> 0])
     \/ \E f \in IF "failure" \in Allow THEN BOOLEAN ELSE {FALSE},
           d, m \in IF "fault" \in Allow THEN BOOLEAN ELSE {FALSE} :
           "finalize" \in Allow /\ Finalize(f, d, m) /\ Hist([op |-> "fin", len |-> 0, valid |-> 1, d |-> B(d), m |-> B(m), f |-> B(f)])

Spec == Init /\ [][Next]_vars

(* the design keeps the contract *)
Contract == mon # {}
(* nothing is vacuous: the monitor knows of exactly the records not stored *)
Sync == \E s \in mon : s.pend = Toks(buf)

View == <<buf, seenf, n, ops, mon>>
Emit == ops = MaxOps => PrintT(ToJson(h))
=============================================================================
