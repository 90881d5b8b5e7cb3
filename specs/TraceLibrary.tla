---- MODULE TraceLibrary ----
(* Walks recorded histories.  The state carried on is the observed one, so that one wrong step
   is reported once; after a restart in the middle of a history (live = FALSE) the rest of that
   history is skipped. *)
EXTENDS Library, TraceIO
VARIABLES i, st, live
Init == i = StartAt /\ st = Start /\ live = (StartAt = 1)
Next == /\ i <= LogLen
        /\ LET e == Log[i] IN
           IF live \/ e.op = "reset"
           THEN LET v == Judge(st, e)
                    g == Observed(st, e)
                IN /\ IF v = {} THEN TRUE ELSE PrintT(<<"VIOL", i, v>>)
                   /\ st' = [cfg |-> g.cfg, objs |-> g.objs, arrs |-> g.arrs]
                   /\ live' = TRUE
           ELSE UNCHANGED <<st, live>>
        /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, st, live>>
Checked == i <= LogLen + 1
====
