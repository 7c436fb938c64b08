---------------------------- MODULE BlockedBidiag ----------------------------
(* Blocked matrices restricted to diagonals 0 and -1 (the operator form).     *)
EXTENDS Blocked
BInit == /\ pc = "new" /\ P = <<>> /\ c \in Cases
         /\ nblk = (c % 9) + 1
         /\ diags = IF nblk = 1 THEN {0} ELSE {0, -1}
BSpec == BInit /\ [][Next]_vars
==============================================================================
