--------------------------------- MODULE Emit ---------------------------------
(* Writes one generated behaviour per line for the conformance drivers. *)
EXTENDS IOUtils, Sequences
EmitOnce(file, line) == Serialize(line \o "\n", file, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
