-------------------------------- MODULE Force --------------------------------
(* Force(v) is v.  TLC (java/Force.java) evaluates it eagerly and to any      *)
(* depth, where it would otherwise re-evaluate nested functions on each use.  *)
Force(v) == v
==============================================================================
