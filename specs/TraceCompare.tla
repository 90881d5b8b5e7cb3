---- MODULE TraceCompare ----
(* Walks a recorded execution and reports every step that is not a step of Compare. *)
EXTENDS Compare, TraceIO
VARIABLE i
Init == i = StartAt
Next == /\ i <= LogLen
        /\ LET v == Judge(Log[i]) IN IF v = {} THEN TRUE ELSE PrintT(<<"VIOL", i, v>>)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Checked == i <= LogLen + 1
====
