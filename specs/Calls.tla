--------------------------------- MODULE Calls ---------------------------------
(* Sequences of calls on shared objects and shared inputs.  A call is a       *)
(* function: its result depends on the operation and on the contents of its   *)
(* arguments at that time alone, and it leaves every input as it was.         *)
(* Between calls the caller may change the contents of the inputs in place    *)
(* (0 in a sequence); ver counts these edits.                                 *)
(*   Mode "generate": all sequences of Length operations of N and at most     *)
(*      Edits edits, each between two calls                                   *)
(*   Mode "validate": recorded sequences (tokens stand for results and for    *)
(*      the contents of the inputs) are steps of this machine, or rejected    *)
EXTENDS Naturals, Sequences, Json, Emit

CONSTANTS Mode, N, Length, Edits, TraceFile

VARIABLES log, ver, pos, verdict, Tr
vars == <<log, ver, pos, verdict, Tr>>

Init == /\ log = <<>> /\ ver = 0 /\ verdict = "open"
        /\ IF Mode = "validate"
           THEN \E q \in {ndJsonDeserialize(TraceFile)} : \E i \in 1..Len(q) : pos = <<i, 1>> /\ Tr = q[i]
           ELSE pos = <<0, 0>> /\ Tr = <<>>

Calls == Len(log) - ver
Generate == /\ Mode = "generate" /\ Calls < Length
            /\ \E o \in 1..N : log' = Append(log, o)
            /\ UNCHANGED <<ver, pos, verdict, Tr>>
Change == /\ Mode = "generate" /\ ver < Edits /\ Calls \in 1..(Length - 1) /\ log[Len(log)] # 0
          /\ log' = Append(log, 0) /\ ver' = ver + 1
          /\ UNCHANGED <<pos, verdict, Tr>>
Done == /\ Mode = "generate" /\ Calls = Length /\ verdict = "open"
        /\ Emit([n |-> N, ops |-> log]) /\ verdict' = "done" /\ UNCHANGED <<log, ver, pos, Tr>>

\* a recorded call: ev.op, the token of its result, the token of the inputs
\* after it; alone[op][v + 1] is the token of the operation called once, on
\* new objects, after v edits.  An edit is an event with op 0.
Pure(tr, ev) == IF ev.op = 0 THEN TRUE ELSE ev.res = tr.alone[ev.op][ver + 1] /\ ev.inputs = tr.inputs
Accept == /\ Mode = "validate" /\ verdict = "open" /\ pos[2] <= Len(Tr.events)
          /\ Pure(Tr, Tr.events[pos[2]])
          /\ ver' = IF Tr.events[pos[2]].op = 0 THEN ver + 1 ELSE ver
          /\ pos' = <<pos[1], pos[2] + 1>> /\ UNCHANGED <<log, verdict, Tr>>
Reject == /\ Mode = "validate" /\ verdict = "open" /\ pos[2] <= Len(Tr.events)
          /\ ~Pure(Tr, Tr.events[pos[2]])
          /\ verdict' = "rejected" /\ UNCHANGED <<log, ver, pos, Tr>>
          /\ Emit([i |-> pos[1], ok |-> FALSE, at |-> pos[2]])
End == /\ Mode = "validate" /\ verdict = "open" /\ pos[2] > Len(Tr.events)
       /\ verdict' = "accepted" /\ UNCHANGED <<log, ver, pos, Tr>>
       /\ Emit([i |-> pos[1], ok |-> TRUE, at |-> 0])
Next == Generate \/ Change \/ Done \/ Accept \/ Reject \/ End
Spec == Init /\ [][Next]_vars
==============================================================================
