---------------------------- MODULE DeviceModel -----------------------------
(* Model of the device manager as the library has it: a list of open devices, each with a context of its own; the number of the
   device a thread works with; programs which are compiled once and kept. Explored against Device: the same devices are open,
   every request is refused or not as it should be (Agrees), and a program which is run belongs to the context of the device it
   is run on (Fits).
   A context is a number which is never given again as long as a program of it is kept.

   Every transition is printed as a script for the real code.                                                               *)
EXTENDS Device, TLC

CONSTANTS N, Threads, Contexts, Fault, Printing

VARIABLES abstract,   \* state of Device
          list,       \* open devices: sequence of [d, context]
          active,     \* thread -> device
          programs,   \* what is kept: set of [key, context]
          next,       \* next context
          verdict,    \* "ok", or what went wrong with the last operation
          hist
vars == <<abstract, list, active, programs, next, verdict, hist>>
View == <<abstract, list, active, programs, next, verdict>>

Init ==
    /\ abstract = Start(N, Threads, {}) /\ list = <<>> /\ active = [t \in Threads |-> 0]
    /\ programs = {} /\ next = 1 /\ verdict = "ok" /\ hist = ""

Listed(d) == \E i \in DOMAIN list : list[i].d = d
ContextOf(d) == list[CHOOSE i \in DOMAIN list : list[i].d = d].context
Without(d) == SelectSeq(list, LAMBDA x : x.d # d)

\* e: the operation; refused: what the code does
Step(e, refused, text) ==
    /\ verdict' = IF refused = Allowed(abstract, e) THEN "refusal" ELSE "ok"
    /\ abstract' = After(abstract, e)
    /\ hist' = IF hist = "" THEN text ELSE hist \o " " \o text
    /\ Printing => PrintT("SCRIPT " \o hist')

Op(op, d, th) == [op |-> op, d |-> d, th |-> th, c |-> 0]

InitDevice(d) ==
    /\ next <= Contexts
    /\ LET e == Op("init", d, 1)
           fresh == d < N /\ (~Listed(d) \/ Fault = "OpensTwice")
       IN /\ list' = IF fresh THEN Append(list, [d |-> d, context |-> next]) ELSE list
          /\ next' = IF fresh THEN next + 1 ELSE next
          /\ Step(e, d >= N, "init " \o ToString(d))
    /\ UNCHANGED <<active, programs>>

CloseDevice(d) ==
    /\ list' = IF Fault = "CloseLast" /\ Listed(d) THEN SubSeq(list, 1, Len(list) - 1) ELSE Without(d)
    /\ Step(Op("close", d, 1), d >= N, "close " \o ToString(d))
    /\ UNCHANGED <<active, programs, next>>

CloseAll(op) ==
    /\ list' = <<>>
    /\ Step(Op(op, 0, 1), FALSE, op \o " 0")
    /\ UNCHANGED <<active, programs, next>>

SetActive(t, d) ==
    /\ LET refused == IF Fault = "NoCheck" THEN d >= N ELSE ~Listed(d)
       IN /\ active' = IF refused THEN active ELSE IF Fault = "OneForAll" THEN [x \in Threads |-> d] ELSE [active EXCEPT ![t] = d]
          /\ Step(Op("active", d, t), refused, "active" \o ToString(t) \o " " \o ToString(d))
    /\ UNCHANGED <<list, programs, next>>

\* a program is run on the device of a thread
Launch(t) ==
    /\ LET d == active[t]
           key == IF Fault = "ByDevice" THEN d ELSE ContextOf(d)
           kept == {p \in programs : p.key = key}
       IN IF ~Listed(d) THEN /\ UNCHANGED programs
                             /\ verdict' = IF Working(abstract, t) = -1 THEN "ok" ELSE "refusal"
          ELSE /\ programs' = IF kept = {} THEN programs \cup {[key |-> key, context |-> ContextOf(d)]} ELSE programs
               /\ verdict' = IF Working(abstract, t) = -1 THEN "refusal"
                             ELSE IF kept = {} \/ \A p \in kept : p.context = ContextOf(d) THEN "ok" ELSE "context"
    /\ hist' = (IF hist = "" THEN "" ELSE hist \o " ") \o "launch" \o ToString(t) \o " 0"
    /\ Printing => PrintT("SCRIPT " \o hist')
    /\ UNCHANGED <<abstract, list, active, next>>

Next ==
    /\ verdict = "ok"
    /\ \/ \E d \in 0 .. N : InitDevice(d) \/ CloseDevice(d) \/ \E t \in Threads : SetActive(t, d)
       \/ \E op \in {"closeall", "reset"} : CloseAll(op)
       \/ \E t \in Threads : Launch(t)
Spec == Init /\ [][Next]_vars

Agrees ==
    /\ verdict # "refusal"
    /\ {list[i].d : i \in DOMAIN list} = abstract.open
    /\ Len(list) = Cardinality(abstract.open)
    /\ active = abstract.active
Fits == verdict # "context"
=============================================================================
