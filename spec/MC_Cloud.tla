------------------------------ MODULE MC_Cloud ------------------------------
(***************************************************************************)
(* The design of the adapter for Google Cloud Storage: a commit names its  *)
(* object once, and tries to store it until it comes out other than with a *)
(* transient error; and of its listing, by the text of a prefix.           *)
(* The monitor of Cloud runs along and has to be able to follow.           *)
(* hist is what replays the behaviour against the real adapter.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
C == INSTANCE Cloud

CONSTANTS MaxCalls, MaxTries, BUG

Outs == {"ok", "before", "after", "fatal"}

VARIABLES calls, tries, phase, name, m, svc, hist, made
vars == <<calls, tries, phase, name, m, svc, hist, made>>

Init == /\ calls = 0 /\ tries = 0 /\ phase = "idle" /\ name = 0
        /\ m = {C!CInit} /\ svc = [n \in {} |-> 0] /\ hist = <<>> /\ made = 0

Mon(ev) == m' = UNION {C!CStep(s, ev) : s \in m}

Call == /\ phase = "idle" /\ calls < MaxCalls
        /\ calls' = calls + 1 /\ tries' = 0 /\ phase' = "try"
        /\ made' = made + 1 /\ name' = made + 1
        /\ hist' = Append(hist, <<>>)
        /\ Mon([e |-> "call"]) /\ UNCHANGED svc

Put(n) == svc' = [x \in DOMAIN svc \cup {n} |-> IF x = n THEN calls ELSE svc[x]]

(* what the adapter does after an attempt *)
Again(out) == CASE BUG = "noretry" -> FALSE
                [] BUG = "retryall" -> out \in {"before", "after", "fatal"}
                [] BUG = "once" -> out \in {"before", "after"} /\ tries = 0
                [] OTHER -> out \in {"before", "after"}

Try == /\ phase = "try"
       /\ \E out \in Outs :
            /\ out = "ok" \/ tries < MaxTries
            /\ IF out \in {"ok", "after"} THEN Put(name) ELSE UNCHANGED svc
            /\ hist' = [hist EXCEPT ![Len(hist)] = Append(@, out)]
            /\ Mon([e |-> "try", name |-> name, data |-> calls,
                    out |-> IF out \in {"before", "after"} THEN "trans" ELSE out])
            /\ tries' = tries + 1
            /\ IF Again(out)
               THEN /\ phase' = "try"
                    /\ IF BUG = "newname" THEN made' = made + 1 /\ name' = made + 1 ELSE UNCHANGED <<made, name>>
               ELSE /\ phase' = IF out = "ok" \/ BUG = "swallow" THEN "good" ELSE "bad"
                    /\ UNCHANGED <<made, name>>
            /\ UNCHANGED calls

Ret == /\ phase \in {"good", "bad"}
       /\ Mon([e |-> "ret", ok |-> phase = "good"])
       /\ phase' = "idle" /\ UNCHANGED <<calls, tries, name, svc, hist, made>>

Next == Call \/ Try \/ Ret
Spec == Init /\ [][Next]_vars

(* the monitor can follow, and at rest the service has what it says, once *)
Contract == /\ m # {}
            /\ phase = "idle" => \A s \in m : /\ C!CStored(s) \subseteq DOMAIN svc
                                              /\ DOMAIN svc \subseteq C!CStored(s) \cup s.maybe
                                              /\ \A a, b \in DOMAIN svc : svc[a] = svc[b] => a = b

Emit == phase = "idle" /\ calls = MaxCalls => PrintT(ToJson([h |-> hist]))

--------------------------------------------------------------------------
(* listing, as an invariant over all pairs of objects; run with ListSpec *)
Segs == {"d", "dd", ""}
Names == UNION {[1..k -> {"d", "dd"}] : k \in 1..3} \cup {Append(n, "") : n \in UNION {[1..k -> {"d", "dd"}] : k \in 1..2}}
Objs == [bucket : {"d", "dd"}, name : Names]
Folders == UNION {[1..k -> {"d", "dd"}] : k \in 1..2}

RECURSIVE Text(_)
(* the text of a name, as a sequence of characters *)
Chars(x) == IF x = "" THEN <<>> ELSE IF x = "d" THEN <<"d">> ELSE <<"d", "d">>
Text(n) == IF Len(n) = 1 THEN Chars(n[1]) ELSE Chars(n[1]) \o <<"/">> \o Text(Tail(n))

ListedBy(o, bucket, folder) ==
    LET pre == Text(folder) \o (IF BUG = "noslash" THEN <<>> ELSE <<"/">>)
        txt == Text(o.name)
    IN /\ (o.bucket = bucket \/ BUG = "anybucket")
       /\ C!StartsWith(txt, pre)
       /\ (BUG = "placeholders" \/ txt[Len(txt)] # "/")

ListInit == /\ calls \in Objs /\ tries \in Folders /\ phase \in {"d", "dd"}
            /\ name = 0 /\ m = {} /\ svc = 0 /\ hist = 0 /\ made = 0
ListSpec == ListInit /\ [][FALSE]_vars
Listing == ListedBy(calls, phase, tries) <=> C!Below(calls, phase, tries)
=============================================================================
