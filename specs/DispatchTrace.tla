---------------------------- MODULE DispatchTrace ----------------------------
(* Checks recorded histories of registrations and generic calls with images of
   several types: the registry against Dispatch, every result against ImageOps. *)
EXTENDS ImageTrace, Dispatch

VARIABLES tables, converts, enabled

allVars == <<vars, tables, converts, enabled>>

DInit ==
    /\ Init
    /\ tables = <<>>
    /\ converts = <<>>
    /\ enabled = FALSE

SetOf(s) == {s[k] : k \in 1 .. Len(s)}
Given(names, gens) == [f \in SetOf(names) |-> gens[CHOOSE k \in 1 .. Len(names) : names[k] = f]]

(* the functions of the generic interface *)
Generic == {"AbsoluteDifference", "Accumulate", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "ConvertToGrayScale", "ConvertToRgb", "Copy", "ExtractChannel",
            "Fill", "Flip", "GammaCorrection", "GetPixel", "Histogram", "Invert", "IsEqual", "LookupTable", "Maximum", "Merge", "Minimum", "Normalize",
            "ProjectionProfile", "Resize", "RgbToBgr", "SetPixel", "SetPixel2", "Split", "Subtract", "Sum", "Threshold", "Threshold2", "Transpose"}

Add(reasons) == bad' = IF reasons = {} THEN bad ELSE Append(bad, <<l, reasons>>)

(* The registry as the library reports it *)
RegistryOk(e, t, type) ==
    /\ e.known = 1
    /\ Given(e.nf, e.ng) = t[type]
    /\ SetOf(e.types) = DOMAIN t
    /\ Len(e.types) = Cardinality(DOMAIN t)

(* a new process *)
Reset(e) ==
    /\ e.e = "reset"
    /\ open = 0
    /\ store' = [s \in Slots |-> EmptyImage]
    /\ tables' = (0 :> [f \in SetOf(e.nf) |-> -1])
    /\ converts' = <<>>
    /\ enabled' = FALSE
    /\ Add(IF RegistryOk(e, tables', 0) /\ Generic \subseteq SetOf(e.nf) THEN {} ELSE {"registry"})
    /\ UNCHANGED open

Register(e) ==
    /\ e.e = "register"
    /\ tables' = Registered(tables, e.ty, [f \in SetOf(e.fs) |-> e.g], e.force = 1)
    /\ Add(IF RegistryOk(e, tables', e.ty) THEN {} ELSE {"registry"})
    /\ UNCHANGED <<store, open, converts, enabled>>

RegisterConverter(e) ==
    /\ e.e = "converter"
    /\ converts' = IF e.a = e.b THEN converts ELSE Converter(converts, e.a, e.b, e.g)
    /\ Add(IF e.t = (IF e.a = e.b THEN 1 ELSE 0) THEN {} ELSE {"registry"})
    /\ UNCHANGED <<store, open, tables, enabled>>

Enable(e) ==
    /\ e.e = "enable"
    /\ enabled' = (e.on = 1)
    /\ Add(IF e.is = e.on THEN {} ELSE {"registry"})
    /\ UNCHANGED <<store, open, tables, converts>>

Function(e) == IF e.op = "SetPixels" THEN "SetPixel2" ELSE e.op
Own(e) == IF Len(e.ti) > 0 THEN e.ti[1] ELSE e.to[1]
(* a function which returns an image makes one of the type of its first input *)
OutTypes(e) == SetOf(e.to) \cup (IF ReturnsImage(e) \/ (e.op = "Copy" /\ e.f = 1) THEN {Own(e)} ELSE {})

(* what ran: exactly one implementation, the registered one, with images of its own type only *)
RunOk(e) ==
    LET outTypes == IF e.op = "Copy" /\ e.f = 1 THEN {Own(e)} ELSE OutTypes(e) \* the old output is dropped
        may == MayRunAs(tables, converts, enabled, Own(e), Function(e), SetOf(e.ti), outTypes)
        f == Function(e)
    IN IF e.op = "Fill" /\ e.f \in {1, 2} /\ Len(e.run) = 0 THEN TRUE \* an image fills itself as a whole
       ELSE IF Len(e.run) = 0 THEN \E t \in may : tables[t][f] = -1
       ELSE /\ Len(e.run) = 1
            /\ LET r == e.run[1] IN /\ r.ty \in may
                                    /\ r.fn = f
                                    /\ r.g = tables[r.ty][f]
                                    /\ SetOf(r.a) \subseteq {r.ty}

(* every converter gets images of the types it was registered for, and is the one registered last *)
ConvertersOk(e) ==
    \A k \in 1 .. Len(e.conv) :
        LET c == e.conv[k] IN /\ c[1] = c[4] /\ c[2] = c[5]
                              /\ <<c[1], c[2]>> \in DOMAIN converts
                              /\ converts[<<c[1], c[2]>>] = c[3]

(* images keep their types, a returned one has the type of the first input *)
TypesOk(e) ==
    IF e.t = 0 /\ ReturnsImage(e) THEN e.ta = <<Own(e)>>
    ELSE IF e.t = 0 /\ e.op = "Copy" /\ e.f = 1 THEN e.ta[1] \in {Own(e), e.to[1]}
    ELSE e.ta = e.to

JudgeDispatch(e) ==
    LET ins == [k \in 1 .. Len(e.i) |-> Read(e.i[k])]
        outs == IF ReturnsImage(e) THEN <<>> ELSE [k \in 1 .. Len(e.o) |-> Read(e.o[k])]
        surely == Valid(e, ins, outs) /\ ~EitherWay(e, ins, outs)
        refusable == MayRefuse(tables, converts, enabled, Own(e), Function(e), SetOf(e.ti), OutTypes(e))
    IN (IF e.t = 1 /\ surely /\ refusable THEN IF Changed(e) = {} /\ (e.op = "Accumulate" => e.r = e.p) THEN {} ELSE {"leak"}
        ELSE Judge(e))
       \cup (IF e.t # 0 \/ RunOk(e) THEN {} ELSE {"dispatch"})
       \cup (IF ConvertersOk(e) THEN {} ELSE {"converter"})
       \cup (IF TypesOk(e) THEN {} ELSE {"type"})

DCall(e) ==
    /\ e.e = "call"
    /\ open > 0
    /\ open' = open - 1
    /\ Add(JudgeDispatch(e))
    /\ store' = [s \in Slots |-> After(e, s)]
    /\ UNCHANGED <<tables, converts, enabled>>

DNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN \/ Reset(e) \/ Register(e) \/ RegisterConverter(e) \/ Enable(e) \/ DCall(e)
          \/ (New(e) \/ Begin(e) \/ End(e)) /\ UNCHANGED <<tables, converts, enabled>>
    /\ l' = l + 1

DSpec == DInit /\ [][DNext]_allVars
=============================================================================
