----------------------------- MODULE MC_Stream ------------------------------
(***************************************************************************)
(* The design of the StreamWriter, step by step: appending threads, the    *)
(* background thread which evicts writers at any moment, and finalize      *)
(* (called once while the others run, and once when they are done), all    *)
(* behind one lock.  Composed with the monitor of Stream.tla.              *)
(* A writer's buffer is stored and emptied in two steps, an open writer is *)
(* looked up (or made) and used in two steps: without the lock that shows. *)
(* The store fails up to MaxFails times.                                   *)
(***************************************************************************)
EXTENDS Stream, Integers, Sequences, FiniteSets, TLC

CONSTANTS BUG, Threads, PerThread, Paths, Full, MaxFails, MaxPass

VARIABLES lock,     \* the thread which holds it, 0 for none
          pool,     \* path -> writer or 0
          buf,      \* writer -> records not stored
          pc, at,   \* thread -> what it does next; the writer it works on
          n,        \* thread -> appends made
          todo,     \* thread -> paths it is to close
          bad,      \* thread -> has its call met a failure
          fails, mon
vars == <<lock, pool, buf, pc, at, n, todo, bad, fails, mon>>

A == 9    \* the background thread
F == 8    \* the finalizing thread
All == Threads \cup {A, F}
Writers == 1..(Cardinality(Threads) * PerThread)
Fresh == CHOOSE w \in Writers : buf[w] = <<-1>> /\ \A v \in Writers : buf[v] = <<-1>> => w <= v

Feed(ev) == mon' = IF mon = <<>> THEN <<>> ELSE StreamStep(mon[1], ev)
Id(t) == t * 1000 + n[t]
Tid(t) == IF t = A THEN 0 ELSE t

Init == /\ lock = 0 /\ pool = [p \in Paths |-> 0] /\ buf = [w \in Writers |-> <<-1>>]
        /\ pc = [t \in All |-> "idle"] /\ at = [t \in All |-> 0] /\ n = [t \in All |-> 0]
        /\ todo = [t \in All |-> {}] /\ bad = [t \in All |-> FALSE] /\ fails = 0 /\ mon = <<StreamInit>>

Free(t) == lock = 0 \/ (BUG = "openappend" /\ t \in Threads) \/ (BUG = "openevict" /\ t = A) \/ (BUG = "openfinalize" /\ t = F)
Take(t) == lock' = IF lock = 0 THEN t ELSE lock
Give(t) == lock' = IF lock = t THEN 0 ELSE lock

(* the path of an append is part of the choice made when it starts *)
PathOf(t) == (CHOOSE x \in mon[1].busy : x.t = t).p
Ok == mon # <<>>

Call(t) == /\ t \in Threads /\ pc[t] = "idle" /\ n[t] < PerThread /\ Ok
           /\ n' = [n EXCEPT ![t] = @ + 1]
           /\ \E p \in Paths : Feed([e |-> "app", t |-> t, i |-> t * 1000 + n[t] + 1, p |-> p, w |-> 0])
           /\ pc' = [pc EXCEPT ![t] = "lock"] /\ bad' = [bad EXCEPT ![t] = FALSE]
           /\ UNCHANGED <<lock, pool, buf, at, todo, fails>>

Lock(t) == /\ pc[t] = "lock" /\ Free(t) /\ Take(t) /\ pc' = [pc EXCEPT ![t] = "get"]
           /\ UNCHANGED <<pool, buf, at, n, todo, bad, fails, mon>>

Get(t) == /\ t \in Threads /\ pc[t] = "get" /\ Ok
          /\ LET p == PathOf(t) IN
             IF pool[p] # 0 THEN at' = [at EXCEPT ![t] = pool[p]] /\ UNCHANGED <<pool, buf>>
             ELSE at' = [at EXCEPT ![t] = Fresh] /\ pool' = [pool EXCEPT ![p] = Fresh] /\ buf' = [buf EXCEPT ![Fresh] = <<>>]
          /\ pc' = [pc EXCEPT ![t] = IF Len(buf'[at'[t]]) >= Full THEN "store" ELSE "add"]
          /\ UNCHANGED <<lock, n, todo, bad, fails, mon>>

(* store what the writer holds; when the store fails the call raises *)
Store(t) ==
    /\ pc[t] = "store" /\ Ok
    /\ LET b == buf[at[t]]
           p == CHOOSE q \in Paths : \E x \in Open(mon[1]) : x.p = q /\ b # <<>> /\ x.i = b[1]
       IN IF b = <<>>
          THEN pc' = [pc EXCEPT ![t] = "clear"] /\ UNCHANGED <<mon, fails, bad>>
          ELSE \/ /\ Feed([e |-> "put", p |-> IF \E q \in Paths : \E x \in Open(mon[1]) : x.p = q /\ x.i = b[1] THEN p ELSE "?", recs |-> b])
                  /\ pc' = [pc EXCEPT ![t] = "clear"] /\ UNCHANGED <<fails, bad>>
               \/ /\ fails < MaxFails /\ fails' = fails + 1
                  /\ Feed([e |-> "fail", t |-> Tid(t)]) /\ bad' = [bad EXCEPT ![t] = TRUE]
                  /\ pc' = [pc EXCEPT ![t] = IF t \in Threads THEN "release" ELSE "next"]
    /\ UNCHANGED <<lock, pool, buf, at, n, todo>>

Clear(t) == /\ pc[t] = "clear"
            /\ buf' = [buf EXCEPT ![at[t]] = <<>>]
            /\ pc' = [pc EXCEPT ![t] = IF t \in Threads THEN "add" ELSE "drop"]
            /\ UNCHANGED <<lock, pool, at, n, todo, bad, fails, mon>>

Add(t) == /\ pc[t] = "add" /\ buf' = [buf EXCEPT ![at[t]] = Append(@, Id(t))]
          /\ pc' = [pc EXCEPT ![t] = "release"] /\ UNCHANGED <<lock, pool, at, n, todo, bad, fails, mon>>

Release(t) == /\ t \in Threads /\ pc[t] = "release" /\ Give(t) /\ pc' = [pc EXCEPT ![t] = "return"]
              /\ UNCHANGED <<pool, buf, at, n, todo, bad, fails, mon>>
Return(t) == /\ pc[t] = "return" /\ Feed([e |-> "ret", t |-> t, i |-> Id(t), ok |-> ~bad[t]])
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<lock, pool, buf, at, n, todo, bad, fails>>

(* the background thread: any set of open writers may be due *)
Pass == /\ pc[A] = "idle" /\ Free(A) /\ Take(A)
        /\ n[A] < MaxPass /\ n' = [n EXCEPT ![A] = @ + 1]
        /\ \E S \in SUBSET {p \in Paths : pool[p] # 0} : S # {} /\ todo' = [todo EXCEPT ![A] = S]
        /\ bad' = [bad EXCEPT ![A] = FALSE]
        /\ pc' = [pc EXCEPT ![A] = "next"] /\ UNCHANGED <<pool, buf, at, fails, mon>>

Done == \A t \in Threads : n[t] = PerThread /\ pc[t] = "idle"
Finalize == /\ pc[F] = "idle" /\ n[F] < 2 /\ (n[F] = 1 => Done) /\ Ok
            /\ n' = [n EXCEPT ![F] = @ + 1]
            /\ Feed([e |-> "fin", t |-> F, w |-> 0]) /\ bad' = [bad EXCEPT ![F] = FALSE]
            /\ pc' = [pc EXCEPT ![F] = "flock"] /\ UNCHANGED <<lock, pool, buf, at, todo, fails>>
FLock == /\ pc[F] = "flock" /\ Free(F) /\ Take(F)
         /\ todo' = [todo EXCEPT ![F] = {p \in Paths : pool[p] # 0}]
         /\ pc' = [pc EXCEPT ![F] = "next"] /\ UNCHANGED <<pool, buf, at, n, bad, fails, mon>>

Next1(t) == /\ t \in {A, F} /\ pc[t] = "next"
            /\ LET S == {p \in todo[t] : pool[p] # 0} IN
               IF S = {} THEN /\ todo' = [todo EXCEPT ![t] = {}] /\ Give(t)
                              /\ pc' = [pc EXCEPT ![t] = IF t = A THEN "idle" ELSE "freturn"] /\ UNCHANGED <<at, pool>>
               ELSE LET p == CHOOSE q \in S : TRUE IN
                    /\ todo' = [todo EXCEPT ![t] = @ \ {p}]
                    /\ at' = [at EXCEPT ![t] = pool[p]]
                    /\ pool' = IF BUG = "dropfirst" THEN [pool EXCEPT ![p] = 0] ELSE pool
                    /\ pc' = [pc EXCEPT ![t] = "store"] /\ UNCHANGED lock
            /\ UNCHANGED <<buf, n, bad, fails, mon>>
Drop(t) == /\ t \in {A, F} /\ pc[t] = "drop"
           /\ pool' = [p \in Paths |-> IF pool[p] = at[t] THEN 0 ELSE pool[p]]
           /\ pc' = [pc EXCEPT ![t] = "next"] /\ UNCHANGED <<lock, buf, at, n, todo, bad, fails, mon>>
FReturn == /\ pc[F] = "freturn"
           /\ Feed([e |-> "fret", t |-> F, w |-> 0, ok |-> (BUG = "swallow" \/ ~bad[F])])
           /\ pc' = [pc EXCEPT ![F] = "idle"] /\ UNCHANGED <<lock, pool, buf, at, n, todo, bad, fails>>

Next == (\E t \in Threads : Call(t) \/ Lock(t) \/ Get(t) \/ Add(t) \/ Release(t) \/ Return(t))
        \/ (\E t \in All : Store(t) \/ Clear(t))
        \/ Pass \/ Finalize \/ FLock \/ FReturn \/ (\E t \in {A, F} : Next1(t) \/ Drop(t))

Spec == Init /\ [][Next]_vars

Contract == /\ mon # <<>>
            \* nothing acknowledged is forgotten: it is in a writer of the pool, or being stored
            /\ \A x \in mon[1].kept : \E w \in Writers : (\E k \in 1..Len(buf[w]) : buf[w][k] = x.i)
                   /\ (\E p \in Paths : pool[p] = w)
=============================================================================
