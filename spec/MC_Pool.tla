------------------------------- MODULE MC_Pool ------------------------------
(***************************************************************************)
(* The design of the maintenance of the pool: the idle writers are closed, *)
(* then those left are put in the order of their last use and the first    *)
(* ones, up to the excess, are closed.  Time passes in rounds; each round  *)
(* has some appends, one after the other, and ends with a pass.            *)
(* Composed with the monitor; prints its histories for replay.             *)
(***************************************************************************)
EXTENDS Pool, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, Paths, MaxRounds, MaxBurst, Idle, Cap

VARIABLES pool, now, round, burst, n, mon, ok, h
vars == <<pool, now, round, burst, n, mon, ok, h>>
(* what is to come depends on how long ago each writer was used; what the   *)
(* writers hold is the same in the monitor, or the contract is broken       *)
View == <<{<<w.p, now - w.last>> : w \in pool}, burst, round, ok, pool = mon.open>>

ROUND == 10

Init == /\ pool = {} /\ now = 0 /\ round = 0 /\ burst = 0 /\ n = 0 /\ mon = PoolInit /\ ok = TRUE /\ h = <<>>

Feed2(evs) ==
    LET F[k \in 0..Len(evs)] == IF k = 0 THEN <<mon>>
                                ELSE IF F[k-1] = <<>> THEN <<>> ELSE PoolStep(F[k-1][1], evs[k], Idle, Cap)
        r == F[Len(evs)]
    IN /\ ok' = (ok /\ r # <<>>)
       /\ mon' = IF r = <<>> THEN mon ELSE r[1]

App(p) ==
    /\ round < MaxRounds /\ burst < MaxBurst /\ n' = n + 1 /\ burst' = burst + 1 /\ now' = now + 1
    /\ LET ws == {w \in pool : w.p = p}
           w == CHOOSE x \in ws : TRUE
       IN pool' = IF ws = {} \/ BUG = "always_new" THEN pool \cup {[p |-> p, last |-> now', recs |-> <<n'>>]}
                  ELSE (pool \ {w}) \cup {[w EXCEPT !.recs = Append(@, n'), !.last = IF BUG = "created" THEN @ ELSE now']}
    /\ Feed2(<<[e |-> "app", t |-> 2, at |-> now', i |-> n', p |-> p], [e |-> "ret", t |-> 2, at |-> now', i |-> n', p |-> p, ok |-> TRUE]>>)
    /\ h' = Append(h, p) /\ UNCHANGED round

(* the pool in the order of last use *)
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE a \in S : \A b \in S : IF BUG = "mru" THEN a.last >= b.last ELSE a.last <= b.last
                 IN <<x>> \o Order(S \ {x})

Pass ==
    /\ round < MaxRounds /\ round' = round + 1 /\ burst' = 0 /\ UNCHANGED n
    /\ now' = round' * ROUND
    /\ LET stale == {w \in pool : IF BUG = "loose" THEN now' - w.last > Idle - ROUND ELSE now' - w.last > Idle}
           left == pool \ stale
           line == Order(left)
           len == Len(line)
           k == CASE BUG = "negslice" /\ len < Cap -> len - (Cap - len)      \* [: n - cap] with n < cap counts from the end
                  [] BUG = "half" -> Least2(IF len > Cap THEN len - Cap ELSE 0, Cap) \div 2
                  [] BUG = "uncapped" -> IF len > Cap THEN len - Cap ELSE 0
                  [] OTHER -> Least2(IF len > Cap THEN len - Cap ELSE 0, Cap)
           closed == stale \cup {line[j] : j \in 1..(IF k < 0 THEN 0 ELSE k)}
           RECURSIVE Puts(_)
           Puts(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN
                        <<[e |-> "put", t |-> 0, p |-> x.p, at |-> now', recs |-> x.recs]>> \o Puts(S \ {x})
       IN /\ pool' = pool \ closed
          /\ Feed2(Puts(closed) \o <<[e |-> "pass", at |-> now']>>)
    /\ h' = Append(h, "-")

Next == Pass \/ \E p \in Paths : App(p)
Spec == Init /\ [][Next]_vars

(* what the contract gives: nothing stale stays open over a pass, the pool gets to its capacity unless it is over twice that *)
Contract == /\ ok
            /\ burst = 0 => (\A w \in pool : now - w.last <= Idle)
            /\ (\A w \in pool : \E x \in mon.open : x = w) /\ Cardinality(pool) = Cardinality(mon.open)
Emit == (round = MaxRounds) => PrintT(ToJson(h))
=============================================================================
