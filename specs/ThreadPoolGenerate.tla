------------------------- MODULE ThreadPoolGenerate -------------------------
(* Prints the scenarios of ThreadPoolScenarios in the form the driver reads. *)
EXTENDS ThreadPoolScenarios, SequencesExt

Text(op, i) ==
    CASE op[1] = "run" -> "run:" \o ToString(op[2]) \o (IF Barrier(op) THEN ":1:" ELSE IF Quiet(op) THEN ":3:" ELSE ":0:") \o ToString(op[3] % 8) \o ":1 "
      [] op[1] = "del" -> "delw "
      [] op[1] \in {"remove", "resize"} -> op[1] \o ":" \o ToString(op[2]) \o " "
      [] OTHER -> op[1] \o " "

ProgramText(p) == FoldLeft(LAMBDA acc, k : acc \o Text(p[k], k), "", [k \in 1 .. Len(p) |-> k])
ScenarioText(x) ==
    "threads " \o ToString(x.threads) \o " singleton 0 ; " \o ProgramText(x.main)
    \o FoldLeft(LAMBDA acc, p : acc \o "; " \o ProgramText(p), "", x.clients)

VARIABLE done
Init == done = FALSE
Next ==
    /\ ~done
    /\ done' = TRUE
    /\ (\A x \in TaskScenarios : PrintT(<<"TASKS", ScenarioText(x)>>))
    /\ (\A x \in LifeScenarios : PrintT(<<"LIFE", ScenarioText(x)>>))
Spec == Init /\ [][Next]_done
=============================================================================
