-------------------------------- MODULE T_Iso --------------------------------
(* Judges what was made of dates, deltas and ranges (see harness/iso.py) *)
EXTENDS Judge, Iso

(* of others: <<0>> none, <<1, seconds>> a number of seconds since 1970, <<2, y, m, d, ...>> a point in time *)
Want(w) == CASE w[1] = 0 -> <<>> [] w[1] = 1 -> Stamp(w[2]) [] w[1] = 2 -> Tail(w)

Verdict(c) ==
    CASE c.scn.kind = "texts" ->
            FirstBad([i \in 1..Len(c.scn.texts) |->
                IF Iso(c.scn.texts[i]) = <<>> THEN <<"none", c.obs.points[i] = <<>> >> ELSE <<"date", c.obs.points[i] = Iso(c.scn.texts[i])>>], 1)
      [] c.scn.kind = "others" -> FirstBad([i \in 1..Len(c.scn.want) |-> <<"other", c.obs.points[i] = Want(c.scn.want[i])>>], 1)
      [] c.scn.kind = "deltas" -> FirstBad([i \in 1..Len(c.scn.texts) |-> <<"delta", c.obs.deltas[i] = Delta(c.scn.texts[i])>>], 1)
      [] c.scn.kind = "range" ->
            IF Backwards(c.scn.start, c.scn.end, c.scn.whole) THEN (IF c.obs.err = "ValueError" THEN "ok" ELSE "backwards")
            ELSE IF c.obs.err # "" THEN "error"
            ELSE IF IsRange(c.scn.start, c.scn.end, c.scn.whole, c.obs.hours) THEN "ok" ELSE "range"

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
