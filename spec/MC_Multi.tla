------------------------------ MODULE MC_Multi ------------------------------
(***************************************************************************)
(* The design of the read with several processes: one queue with work, one *)
(* of a limited size with replies.  As many blobs as there are processes   *)
(* are handed out at the start; every reply is answered with the next blob *)
(* or, when there is none, with a signal to end.  The consumer works on a  *)
(* reply as long as it likes before the answer goes out, and may stop.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
M == INSTANCE MultiProc

CONSTANTS NBlobs, NProcs, Sched, BUG

Procs == 1..NProcs
(* with as many places as processes there is always space: no more is handed out *)
Cap == IF BUG = "full" THEN 1 ELSE NProcs
END == 0

VARIABLES send, reply, proc, item, next, got, par, stop, hist
vars == <<send, reply, proc, item, next, got, par, stop, hist>>
view == <<send, reply, proc, item, next, got, par, stop>>

Log(a) == IF Sched THEN hist' = Append(hist, a) ELSE UNCHANGED hist

Init == /\ send = [i \in 1..NProcs |-> i]
        /\ next = NProcs + 1
        /\ reply = <<>> /\ got = <<>> /\ par = "run" /\ hist = <<>>
        /\ proc = [p \in Procs |-> "new"] /\ item = [p \in Procs |-> 0]
        /\ stop \in {0} \cup 1..NBlobs     \* stop after this many replies

Take(p) == /\ proc[p] \in {"new", "idle"} /\ send # <<>>
           /\ send' = Tail(send)
           /\ IF Head(send) = END
              THEN proc' = [proc EXCEPT ![p] = "dead"] /\ UNCHANGED item
              ELSE proc' = [proc EXCEPT ![p] = "work"] /\ item' = [item EXCEPT ![p] = Head(send)]
           /\ Log(p) /\ UNCHANGED <<reply, next, got, par, stop>>

(* nothing came within the time a new process waits *)
GiveUp(p) == /\ BUG = "giveup" /\ proc[p] = "new" /\ send = <<>>
             /\ proc' = [proc EXCEPT ![p] = "dead"]
             /\ Log(p) /\ UNCHANGED <<send, reply, item, next, got, par, stop>>

Put(p) == /\ proc[p] = "work" /\ Len(reply) < Cap
          /\ reply' = Append(reply, item[p])
          /\ proc' = [proc EXCEPT ![p] = "idle"]
          /\ Log(p) /\ UNCHANGED <<send, item, next, got, par, stop>>

(* there was no space within the time a process waits *)
Full(p) == /\ BUG = "full" /\ proc[p] = "work" /\ Len(reply) = Cap
           /\ proc' = [proc EXCEPT ![p] = "dead"]
           /\ Log(p) /\ UNCHANGED <<send, reply, item, next, got, par, stop>>

Get == /\ par = "run" /\ reply # <<>>
       /\ got' = Append(got, Head(reply)) /\ reply' = Tail(reply)
       /\ par' = "busy"
       /\ Log(0) /\ UNCHANGED <<send, proc, item, next, stop>>

Answer == /\ par = "busy" /\ Len(got) # stop
          /\ IF next <= NBlobs
             THEN send' = Append(send, next) /\ next' = next + 1
             ELSE /\ send' = IF BUG = "oneend" /\ next > NBlobs + 1 THEN send ELSE Append(send, END)
                  /\ next' = IF next <= NBlobs + 1 THEN next + 1 ELSE next
          /\ par' = "run"
          /\ Log(0) /\ UNCHANGED <<reply, proc, item, got, stop>>

(* the loop's condition, and its early end *)
Leave == /\ \/ par = "run" /\ reply = <<>> /\ (send = <<>> \/ BUG = "noleft") /\ \A p \in Procs : proc[p] = "dead"
            \/ par = "run" /\ BUG = "eager" /\ reply = <<>> /\ next > NBlobs
            \/ par = "busy" /\ Len(got) = stop
         /\ par' = "join"
         /\ IF par = "busy" /\ BUG # "noterminate"
            THEN proc' = [p \in Procs |-> "dead"] ELSE UNCHANGED proc
         /\ Log(0) /\ UNCHANGED <<send, reply, item, next, got, stop>>

Join == /\ par = "join" /\ \A p \in Procs : proc[p] = "dead"
        /\ par' = "done"
        /\ Log(0) /\ UNCHANGED <<send, reply, proc, item, next, got, stop>>

Next == \/ \E p \in Procs : Take(p) \/ GiveUp(p) \/ Put(p) \/ Full(p)
        \/ Get \/ Answer \/ Leave \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Get \/ Answer \/ Leave \/ Join) /\ \A p \in Procs : WF_vars(Take(p) \/ Put(p))

Blobs == [i \in 1..NBlobs |-> <<i>>]
Contract == /\ M!Some(Blobs, got)
            /\ par = "done" /\ stop \notin 1..Len(got) => M!All(Blobs, got)
Ends == <>(par = "done")
(* every state from which nothing can happen is the end *)
NoStuck == ENABLED Next \/ par = "done"

Emit == par = "done" => PrintT(ToJson([h |-> hist, stop |-> stop]))
=============================================================================
