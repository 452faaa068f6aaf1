----------------------------- MODULE QueueModel ------------------------------
(* Model of the queues of an OpenCL device as the library has them: a sequence of handles and the index of the current one;
   handles are created and released when the number of queues changes. Explored against Device: the count and the current
   queue are as they should be (Agrees), every queue in the list lives and no other one does (Lives).

   Every transition is printed as a script for the real code.                                                               *)
EXTENDS Device, TLC

CONSTANTS Counts, Ids, Fault, Printing

VARIABLES abstract,   \* [count, current]
          list,       \* handles
          current,
          live,       \* handles which were created and not released
          hist
vars == <<abstract, list, current, live, hist>>
\* handles are interchangeable
View == <<abstract, Len(list), current, Cardinality(live), {i \in DOMAIN list : list[i] \in live}>>

Init == abstract = FreshQueues /\ list = <<1>> /\ current = 0 /\ live = {1} /\ hist = "init 0"

Step(text) == hist' = hist \o " " \o text /\ (Printing => PrintT("SCRIPT " \o hist'))

Highest == CHOOSE x \in live : \A y \in live : y <= x

SetCount(c) ==
    /\ LET most == IF c > MostQueues /\ Fault # "NoMaximum" THEN MostQueues ELSE c
           wanted == IF most = 0 /\ Fault # "NoMinimum" THEN 1 ELSE most
           n == Len(list)
       IN IF wanted > n
          THEN /\ list' = list \o [i \in 1 .. (wanted - n) |-> Highest + i]
               /\ live' = live \cup ((Highest + 1) .. (Highest + wanted - n))
               /\ current' = current
          ELSE LET kept == SubSeq(list, 1, wanted)
                   released == CASE Fault = "ReleasesFirst" -> {list[i] : i \in 1 .. (n - wanted)}
                                 [] Fault = "Keeps" -> {}
                                 [] OTHER -> {list[i] : i \in wanted + 1 .. n}
               IN /\ list' = kept
                  /\ live' = live \ released
                  /\ current' = IF (IF Fault = "OneTooFar" THEN current > wanted ELSE current >= wanted) /\ Fault # "KeepsCurrent" THEN 0 ELSE current
    /\ abstract' = WithCount(abstract, c)
    /\ Step("queues " \o ToString(c))

SetCurrent(c) ==
    /\ current' = IF c < Len(list) \/ (Fault = "CurrentUnchecked" /\ c = Len(list)) THEN c ELSE current
    /\ abstract' = WithCurrent(abstract, c)
    /\ Step("queue " \o ToString(c))
    /\ UNCHANGED <<list, live>>

Next == (\E c \in Counts : SetCount(c)) \/ (\E c \in Ids : SetCurrent(c))
Spec == Init /\ [][Next]_vars

Agrees == abstract = [count |-> Len(list), current |-> current]
Lives == {list[i] : i \in DOMAIN list} = live
=============================================================================
