------------------------------- MODULE T_Route ------------------------------
EXTENDS Judge, Route

Verdict(c) ==
    LET rs == c.scn.recs
        want == UNION {{<<rs[i].id, p>> : p \in RoutePaths(c.scn.tpl, rs[i].vals, rs[i].time, rs[i].bad = 1)} : i \in 1..Len(rs)}
        puts == c.obs.puts
        got == Flat([j \in 1..Len(puts) |-> [k \in 1..Len(puts[j].recs) |-> <<puts[j].recs[k], puts[j].p>>]])
        good == {rs[i].id : i \in {j \in 1..Len(rs) : rs[j].bad = 0}}
    IN FirstBad(<<
         <<"raised", c.obs.err = "">>,
         <<"missing", want \subseteq Range(got)>>,
         <<"stray", Range(got) \subseteq want>>,
         <<"repeated", Len(got) = Cardinality(want)>>,
         <<"read", c.scn.readback = 1 => Range(c.obs.read) = good /\ Len(c.obs.read) = Cardinality(good)>>
         >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
