------------------------------ MODULE Dispatch ------------------------------
(* The registry of image types and the dispatch of generic image functions.

   tables   : type -> function -> the registration which gave the function
   converts : <<from, to>> -> the registration of the converter
   enabled  : whether conversion between types is enabled

   A call of function f whose first image has type `own`, whose inputs have
   the types `ins` and whose outputs have the types `outs` is run by the
   implementation registered for `own`; when there is none and conversion is
   enabled, by one registered for another type. The chosen implementation only
   sees images of its own type: inputs are converted to it, outputs are
   converted to it and back.                                                 *)
EXTENDS Integers, FiniteSets, TLC

Known(tables, own) == own \in DOMAIN tables
Has(tables, t, f) == t \in DOMAIN tables /\ f \in DOMAIN tables[t]

(* the types whose implementation may run the call *)
Candidates(tables, enabled, own, f) ==
    IF Has(tables, own, f) THEN {own}
    ELSE IF enabled THEN {t \in DOMAIN tables : Has(tables, t, f)}
    ELSE {}

(* the conversions which running it as type t takes *)
Needed(t, ins, outs) ==
    {<<i, t>> : i \in ins \ {t}} \cup {<<o, t>> : o \in outs \ {t}} \cup {<<t, o>> : o \in outs \ {t}}

Possible(converts, t, ins, outs) == Needed(t, ins, outs) \subseteq DOMAIN converts

(* May the call (with valid arguments) run as type t? *)
MayRunAs(tables, converts, enabled, own, f, ins, outs) ==
    {t \in Candidates(tables, enabled, own, f) : Possible(converts, t, ins, outs)}

(* May it be refused? Images of a type the registry knows nothing about, and
   images which would have to be converted although conversion is disabled,
   may be refused.                                                           *)
MayRefuse(tables, converts, enabled, own, f, ins, outs) ==
    LET c == Candidates(tables, enabled, own, f)
    IN \/ ~Known(tables, own)
       \/ \A t \in c : ~Possible(converts, t, ins, outs)
       \/ \E t \in c : ~Possible(converts, t, ins, outs)
       \/ ~enabled /\ ins \cup outs # {own}

----------------------------------------------------------------------------
(* Registration *)
Registered(tables, type, given, forced) ==
    LET old == IF type \in DOMAIN tables THEN tables[type] ELSE <<>>
        new == [f \in DOMAIN old \cup DOMAIN given |->
                  IF f \in DOMAIN given /\ (f \notin DOMAIN old \/ forced) THEN given[f] ELSE old[f]]
    IN (type :> new) @@ tables

Converter(converts, from, to, g) == (<<from, to>> :> g) @@ converts
=============================================================================
