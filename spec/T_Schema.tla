------------------------------ MODULE T_Schema ------------------------------
(***************************************************************************)
(* Sessions of writers with schemas and expectations: which records are    *)
(* valid is decided here, from the schema and the record (ev.row), and     *)
(* everything else is as for any writer.                                   *)
(***************************************************************************)
EXTENDS T_Writer, Schema

Ev(cfgs, ev) ==
    IF ev.e = "app"
    THEN LET w == cfgs[ev.w]
         IN [ev EXCEPT !.valid = Acceptable(w.schema, w.cols, w.exps, ev.row)]
    ELSE ev

SVerdict(c) ==
    Verdict([c EXCEPT !.obs.ev = [i \in 1..Len(@) |-> Ev(c.scn.cfgs, @[i])]])

SJNext == JStep(SVerdict)
SJSpec == JInit /\ [][SJNext]_<<ci, judged>>
=============================================================================
