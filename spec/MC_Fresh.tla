------------------------------ MODULE MC_Fresh ------------------------------
(***************************************************************************)
(* The design of looking back: while the day has nothing to serve, and the *)
(* limit isn't passed, step back a day.  Checked against FreshResult for   *)
(* every assignment of states to the last few days and every limit.        *)
(***************************************************************************)
EXTENDS Fresh, FiniteSets, TLC, Json

CONSTANTS BUG, NDAYS, Limits

States == {"none", "plain", "open", "ignored", "done", "hollow", "backout", "older"}

Obj(f, k, i) == [by |-> "", part |-> "", frame |-> f, kind |-> k, recs |-> <<i>>]
Objects(s, d) ==
    CASE s = "none" -> {}
      [] s = "plain" -> {Obj(0, "data", d)}
      [] s = "open" -> {Obj(1, "data", d)}
      [] s = "ignored" -> {Obj(1, "data", d), Obj(1, "complete", 0), Obj(1, "ignore", 0)}
      [] s = "done" -> {Obj(1, "data", d), Obj(1, "complete", 0)}
      [] s = "hollow" -> {Obj(1, "complete", 0)}
      [] s = "backout" -> {Obj(0, "backout", d)}
      [] s = "older" -> {Obj(1, "data", d), Obj(1, "complete", 0), Obj(2, "data", d + 100)}

VARIABLES days, limit, back, st
vars == <<days, limit, back, st>>

Init == /\ days \in [1..NDAYS -> States] /\ limit \in Limits \cup {-1}
        /\ back = 0 /\ st = "look"

D == [k \in 1..NDAYS |-> Objects(days[k], k)]

Seen(k) == IF k >= NDAYS THEN FALSE
           ELSE IF BUG = "anyblob" THEN D[k + 1] # {}
           ELSE IF BUG = "hollow" THEN HasData(D[k + 1]) \/ days[k + 1] = "hollow"
           ELSE HasData(D[k + 1])

Over == CASE BUG = "late" -> back * 24 > limit + 24
          [] BUG = "early" -> back * 24 >= limit /\ back > 0
          [] BUG = "roundup" -> back > (limit + 23) \div 24
          [] OTHER -> back * 24 > limit

Look ==
    /\ st = "look"
    /\ IF limit >= 0 /\ Over THEN st' = "notfound" /\ UNCHANGED back
       ELSE IF Seen(back) THEN st' = "data" /\ UNCHANGED back
       ELSE IF limit < 0 THEN st' = "notfound" /\ UNCHANGED back
       ELSE st' = st /\ back' = back + 1
    /\ UNCHANGED <<days, limit>>

Spec == Init /\ [][Look]_vars /\ WF_vars(Look)

Contract == st # "look" => LET r == FreshResult(D, limit)
                           IN r[1] = st /\ (st = "data" => r[2] = back)
Ends == <>(st # "look")
InitSpec == Init /\ [][FALSE]_vars
Emit == PrintT(ToJson([days |-> days, limit |-> limit]))
=============================================================================
