----------------------------- MODULE ImageTrace -----------------------------
(* Checks a recorded sequence of image function calls against ImageOps.

   Every recorded call is one step. The step compares what the real function
   did (returned images and values, changed images, exception) with what the
   specification allows for the images held before the call, and adds the call
   to `bad` together with the way in which it went wrong when it does not.    *)
EXTENDS ImageOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Slots == 0 .. 79

VARIABLES l,        \* next line of the trace
          store,    \* the images held by the slots
          open,     \* number of calls begun and not ended
          bad       \* calls which went wrong: <<line, set of reasons>>

vars == <<l, store, open, bad>>

Init ==
    /\ l = 1
    /\ store = [s \in Slots |-> EmptyImage]
    /\ open = 0
    /\ bad = <<>>

Read(s) == store[s]

Changed(e) == {e.ch[k].id : k \in 1 .. Len(e.ch)}
NewImage(e, s) == LET k == CHOOSE k \in 1 .. Len(e.ch) : e.ch[k].id = s IN e.ch[k]
After(e, s) == IF s \in Changed(e) THEN NewImage(e, s) ELSE store[s]

Judge(e) ==
    LET ins == [k \in 1 .. Len(e.i) |-> Read(e.i[k])]
        outs == IF ReturnsImage(e) THEN <<>> ELSE [k \in 1 .. Len(e.o) |-> Read(e.o[k])]
        outSlots == {e.o[k] : k \in 1 .. Len(e.o)}
        valid == Valid(e, ins, outs)
        either == EitherWay(e, ins, outs)
        others == IF Changed(e) \subseteq outSlots THEN {} ELSE {"other"}
    IN IF e.t = 0 /\ (valid \/ either) THEN Defects(e, ins, outs, [k \in 1 .. Len(e.o) |-> After(e, e.o[k])]) \cup others
       ELSE IF e.t = 0 THEN {"accepted"}
       ELSE IF valid /\ ~either THEN {"refused"}
       ELSE (IF e.t = 1 THEN {} ELSE {"exception"})
            \cup (IF Changed(e) = {} /\ (e.op = "Accumulate" => e.r = e.p) THEN {} ELSE {"leak"})

New(e) ==
    /\ e.e = "new"
    /\ store' = [store EXCEPT ![e.im.id] = e.im]
    /\ bad' = IF WellFormed(e.im) THEN bad ELSE Append(bad, <<l, {"shape"}>>)
    /\ UNCHANGED open

Begin(e) ==
    /\ e.e = "begin"
    /\ open' = open + 1
    /\ UNCHANGED <<store, bad>>

Call(e) ==
    /\ e.e = "call"
    /\ open > 0
    /\ open' = open - 1
    /\ LET j == Judge(e) IN bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
    /\ store' = [s \in Slots |-> After(e, s)]

End(e) ==
    /\ e.e = "end"
    /\ open = 0
    /\ UNCHANGED <<store, open, bad>>

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN New(e) \/ Begin(e) \/ Call(e) \/ End(e)
    /\ l' = l + 1

Spec == Init /\ [][Next]_vars

(* The last line of the trace is an "end" which was accepted *)
Complete == l > Len(Trace) /\ Len(Trace) > 0 /\ Trace[Len(Trace)].e = "end"

(* Reports the outcome when the end of the trace is reached. *)
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
