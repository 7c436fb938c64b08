-------------------------------- MODULE Emit ---------------------------------
(* Export of records to the replay harness: Emit(r) is TRUE, and TLC's        *)
(* evaluation of it (java/Emit.java) appends r as one JSON line to a file.    *)
Emit(r) == TRUE
==============================================================================
