---------------------------- MODULE DispatchModel ----------------------------
(* The registry and the dispatch as penguinV builds them (ImageTypeManager, the
   dispatching macro, ImageManager), for one function and three image types.
   Explored exhaustively: in every state that any history of registrations can
   reach, every call with every mix of types is compared with Dispatch.

   Fault switches one modelled defect on; every one must be found.           *)
EXTENDS Dispatch, Sequences

CONSTANTS Fault, BuiltIn, Printing

Types == 0 .. 2
F == "f"
Null == -2

VARIABLES
    tables, converts, enabled, \* as Dispatch defines them
    table,                     \* the design: type -> "none" or the entry of F (Null, or a registration)
    map,                       \* the design: registered pairs
    history

vars == <<tables, converts, enabled, table, map, history>>
View == <<tables, converts, enabled, table, map>>

None == -3

Init ==
    /\ tables = (0 :> IF BuiltIn THEN (F :> -1) ELSE <<>>)
    /\ table = [t \in Types |-> IF t = 0 THEN (IF BuiltIn THEN -1 ELSE Null) ELSE None]
    /\ converts = <<>>
    /\ map = <<>>
    /\ enabled = FALSE
    /\ history = ""

B(x) == IF x THEN "1 " ELSE "0 "

Register(t, g, forced, gives) ==
    LET entry == IF gives THEN g ELSE Null
        old == table[t]
        new == IF old = None THEN entry
               ELSE IF Fault = "ForceGivesNothing" /\ forced THEN entry
               ELSE IF Fault = "NeverReplaces" /\ old # Null THEN old
               ELSE IF Fault = "AlwaysReplaces" /\ entry # Null THEN entry
               ELSE IF old = Null \/ (forced /\ entry # Null) THEN entry ELSE old
    IN /\ tables' = Registered(tables, t, IF gives THEN (F :> g) ELSE <<>>, forced)
       /\ table' = [table EXCEPT ![t] = new]
       /\ history' = history \o "R " \o ToString(t) \o " " \o ToString(g) \o " " \o B(forced) \o B(gives)
       /\ UNCHANGED <<converts, enabled, map>>

Convert(a, b) ==
    /\ a # b
    /\ <<a, b>> \notin DOMAIN converts
    /\ converts' = Converter(converts, a, b, 0)
    /\ map' = (IF Fault = "OnePairPerSource" THEN [p \in {q \in DOMAIN map : q[1] # a} |-> 0] ELSE map) @@ (<<a, b>> :> 0)
    /\ history' = history \o "C " \o ToString(a) \o " " \o ToString(b) \o " "
    /\ UNCHANGED <<tables, enabled, table>>

Enable ==
    /\ enabled' = ~enabled
    /\ history' = history \o "E " \o B(~enabled)
    /\ UNCHANGED <<tables, converts, table, map>>

Next ==
    \/ \E t \in Types, g \in {1, 2}, forced \in BOOLEAN, gives \in BOOLEAN : Register(t, g, forced, gives)
    \/ \E a, b \in Types : Convert(a, b)
    \/ Enable

Spec == Init /\ [][Next]_vars

(* the design: what happens to a call *)
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
With == {t \in Types : table[t] \notin {None, Null}}
Chosen(own) ==
    IF table[own] = None THEN None
    ELSE IF table[own] # Null THEN own
    ELSE IF (enabled \/ Fault = "IgnoresSwitch") /\ With # {} THEN Min(With)
    ELSE None

Outcome(own, ins, outs) ==
    LET t == Chosen(own)
        forward == {<<i, t>> : i \in (ins \cup outs) \ {t}}
        back == {<<t, o>> : o \in outs \ {t}}
    IN IF t = None THEN <<"refused">>
       ELSE IF Fault # "RunsForeign" /\ ~(forward \subseteq DOMAIN map) THEN <<"refused">>
       ELSE IF Fault = "RunsForeign" THEN <<"ran", t, table[t], ins \cup outs>>
       ELSE IF ~(back \subseteq DOMAIN map) THEN (IF Fault = "ConvertsBackLate" THEN <<"abort">> ELSE <<"refused">>)
       ELSE <<"ran", t, table[t], {t}>>

CallOk(own, ins, outs) ==
    LET o == Outcome(own, ins, outs)
    IN CASE o[1] = "refused" -> MayRefuse(tables, converts, enabled, own, F, ins, outs)
         [] o[1] = "ran" -> /\ o[2] \in MayRunAs(tables, converts, enabled, own, F, ins, outs)
                            /\ o[3] = tables[o[2]][F]
                            /\ o[4] = {o[2]}
         [] OTHER -> FALSE

CallsOk == \A own \in Types, other \in SUBSET Types, outs \in SUBSET Types : CallOk(own, {own} \cup other, outs)

RegistryOk == \A t \in Types : table[t] = IF t \notin DOMAIN tables THEN None ELSE IF F \in DOMAIN tables[t] THEN tables[t][F] ELSE Null

(* one scenario per state, replayed on the real library *)
Report == ~Printing \/ PrintT("SCENARIO " \o history)
=============================================================================
