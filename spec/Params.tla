------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The parameters of Reader: which are defined, required, and declared     *)
(* incompatible.  A call is a set of parameters, each given a value which  *)
(* is true or isn't, and the rules of the inner reader.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Defined == {"cursor", "dataset", "end_date", "freshness_limit", "inner_reader", "raw_path", "select", "start_date", "filters",
            "persistence", "override_format", "multiprocess", "valid_dataset_prefixes", "partitions", "partition_filter", "project"}
Required == {"dataset"}
(* the first, with a true value, may not be given with the second *)
Conflicts == {<<"raw_path", "freshness_limit">>, <<"multiprocess", "cursor">>, <<"partitions", "raw_path">>, <<"partition_filter", "freshness_limit">>}

(* c: given (names), true (names of those with true values), more (what the inner reader defines), needs (what it requires) *)
Unknown(c) == c.given \ (Defined \cup c.more)
Missing(c) == (Required \cup c.needs) \ c.given
Clash(c) == {x \in Conflicts : x[1] \in c.true /\ x[2] \in c.given}
Refused(c) == Unknown(c) # {} \/ Missing(c) # {} \/ Clash(c) # {}
=============================================================================
