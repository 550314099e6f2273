-------------------------------- MODULE Sets --------------------------------
(* Names of the guards <<name, condition>> which do not hold *)
FailingNames(guards) == {g[1] : g \in {x \in guards : ~x[2]}}
=============================================================================
