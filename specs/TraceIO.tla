-------------------------------- MODULE TraceIO --------------------------------
(***************************************************************************)
(* Reading recorded executions.  The environment variable TRACE names an   *)
(* ndjson file, one record per observed step of the real library; START is *)
(* the first step to decide.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
LogLen == Len(Log)
StartAt == atoi(IOEnv.START)
=============================================================================
