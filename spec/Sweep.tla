-------------------------------- MODULE Sweep --------------------------------
(* The inputs of one topic, written to a file. *)
EXTENDS Inputs
ASSUME ndJsonSerialize(IOEnv.OUT, Jobs(IOEnv.TOPIC))
=============================================================================
