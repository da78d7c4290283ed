-------------------------------- MODULE MCBase -------------------------------
(* Common part of the bounded instances: every reachable recording is exported *)
(* (to the file named by EXPORT) and replayed in the real code.                *)
EXTENDS Recorder, Json, CSV, IOUtils
Thorough == IOEnv.TIER = "thorough"
Export == IF IOEnv.EXPORT = "" \/ ~Flushed THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson(file)>>, IOEnv.EXPORT)
=============================================================================
