------------------------------ MODULE T_Cloud ------------------------------
(***************************************************************************)
(* Judges the same session run through several adapters, the attempts to   *)
(* store which were made at the service, and listings.                     *)
(* obs.runs      per adapter: lay   what was stored, in order (folder,     *)
(*                                  extension, records; or a marker)       *)
(*                            ok    which calls succeeded                  *)
(*                            reads what was read back                     *)
(* obs.services  per service: attempts, stored (the names at the end)      *)
(* obs.objects, obs.lists   objects, and what was listed for folders       *)
(***************************************************************************)
EXTENDS Judge, Cloud

RECURSIVE CRun(_, _, _)
CRun(evs, i, M) ==
    IF i > Len(evs) THEN <<0, M>>
    ELSE LET S == UNION {CStep(s, evs[i]) : s \in M}
         IN IF S = {} THEN <<i, M>> ELSE CRun(evs, i + 1, S)

Svc(s) == LET r == CRun(s.attempts, 1, {CInit})
          IN IF r[1] # 0 THEN "attempt:" \o s.attempts[r[1]].e
             ELSE IF \A x \in r[2] : /\ CStored(x) \subseteq Range(s.stored)
                                     /\ Range(s.stored) \subseteq CStored(x) \cup x.maybe
                  THEN "ok" ELSE "stored"

Session(o) ==
    FirstBad(<<
      <<"layout", \A i \in 2..Len(o.runs) : o.runs[i].lay = o.runs[1].lay>>,
      <<"calls", \A i \in 2..Len(o.runs) : o.runs[i].ok = o.runs[1].ok>>,
      <<"reads", \A i \in 2..Len(o.runs) : o.runs[i].reads = o.runs[1].reads>>
      >> \o [i \in 1..Len(o.services) |-> <<Svc(o.services[i]), Svc(o.services[i]) = "ok">>], 1)

(* l: the bucket, the folder and what was listed (the indexes of the objects, 0 for anything else) *)
ListOK(objs, l) ==
    /\ Cardinality(Range(l.got)) = Len(l.got)
    /\ Range(l.got) = {i \in 1..Len(objs) : Below(objs[i], l.bucket, l.folder)}

Verdict(c) ==
    IF c.scn.what = "list"
    THEN FirstBad([i \in 1..Len(c.obs.lists) |-> <<"list:" \o c.obs.lists[i].by, ListOK(c.obs.objects, c.obs.lists[i])>>]
                  \o << <<"bytes", c.obs.same>> >>, 1)
    ELSE Session(c.obs)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
