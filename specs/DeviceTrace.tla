----------------------------- MODULE DeviceTrace ----------------------------
(* Checks recorded histories of OpenCL devices and images on them against Device. After every step everything is observed: the
   open devices and their queues, the device each thread works with, and the contents of all images.                       *)
EXTENDS Device, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad
vars == <<l, s, bad>>
Threads == {1, 2}
Slots == 1 .. 4
Init == l = 1 /\ s = Start(0, Threads, Slots) /\ bad = <<>>
If(c, reason) == IF c THEN {} ELSE {reason}

Geometry(e, d) == [dev |-> d, w |-> e.w, h |-> e.h, cc |-> e.cc, al |-> e.al, rows |-> <<>>]
Cleared(im) == [im EXCEPT !.dev = -1, !.w = 0, !.h = 0, !.rows = <<>>]
Put(im, e) == \* bytes offset .. offset + size - 1 of the memory, rows of e.row bytes
    [im EXCEPT !.rows = [y \in 1 .. im.h |-> [k \in 1 .. im.w * im.cc |-> LET at == (y - 1) * e.row + k - 1 IN IF at >= e.offset /\ at < e.offset + e.size THEN e.value ELSE im.rows[y][k]]]]
Round(al, n) == ((n + al - 1) \div al) * al

\* the images after a step: what the recorded ones have to be. Alignments of results which the library chooses are taken as they are.
Images(e) ==
    LET a == s.images[e.a]
        b == s.images[e.b]
        d == s.active[e.th]
        seen(k) == e.images[k].al
        of(im) == [im EXCEPT !.dev = IF im.rows = <<>> THEN -1 ELSE d]
    IN CASE e.op = "create" -> [s.images EXCEPT ![e.a] = Filled(Geometry(e, d), e.value)]
         [] e.op = "resize" -> [s.images EXCEPT ![e.a] = Filled([Geometry(e, d) EXCEPT !.cc = a.cc, !.al = a.al], e.value)]
         [] e.op = "fill" -> [s.images EXCEPT ![e.a] = Filled(a, e.value)]
         [] e.op = "part" -> [s.images EXCEPT ![e.a] = Put(a, e)]
         [] e.op = "write" -> [s.images EXCEPT ![e.a] = [a EXCEPT !.rows = e.host]]
         [] e.op = "read" -> s.images
         [] e.op \in {"copy", "assign"} -> [s.images EXCEPT ![e.b] = a]
         [] e.op = "move" -> [s.images EXCEPT ![e.b] = a, ![e.a] = [NoImage EXCEPT !.cc = e.images[e.a].cc, !.al = e.images[e.a].al]]
         [] e.op \in {"swap", "moveassign"} -> [s.images EXCEPT ![e.b] = a, ![e.a] = IF e.op = "swap" THEN b ELSE
                                                  IF e.images[e.a].dev = -1 THEN [NoImage EXCEPT !.cc = e.images[e.a].cc, !.al = e.images[e.a].al] ELSE b]
         [] e.op = "clear" -> [s.images EXCEPT ![e.a] = Cleared(a)]
         [] e.op = "destroy" -> [s.images EXCEPT ![e.a] = NoImage]
         [] e.op = "invert" -> [s.images EXCEPT ![e.b] = [Inverted(a) EXCEPT !.al = seen(e.b)]]
         [] e.op = "difference" -> [s.images EXCEPT ![e.cs] = [Differences(a, b) EXCEPT !.al = seen(e.cs)]]

Next1(e) ==
    CASE e.e = "begin" -> Start(e.supported, Threads, Slots)
      [] e.e = "device" -> After(s, e)
      [] e.e = "image" -> [s EXCEPT !.images = Images(e)]
      [] e.e = "together" -> [s EXCEPT !.images[1] = Filled(@, e.v1), !.images[2] = Filled(@, e.v2)]
      [] OTHER -> s

Strip(im) == [dev |-> im.dev, w |-> im.w, h |-> im.h, cc |-> im.cc, al |-> im.al, rows |-> im.rows]
Observed(e, n) ==
    If(e.n = n.n /\ e.count = Cardinality(n.open), "count")
    \cup If(\A d \in All(n) : e.which[d + 1] = IF d \in n.open THEN d ELSE -1, "open devices")
    \cup If(\A k \in DOMAIN e.unknown : e.unknown[k] = 1, "unknown device")
    \cup If(\A t \in Threads : e.working[t] = Working(n, t), "active device")
    \cup If(\A d \in All(n) : e.queues[d + 1] = IF d \in n.open THEN <<n.queues[d].count, n.queues[d].current, 1>> ELSE <<>>, "queues")
    \cup If(\A k \in Slots : Strip(e.images[k]) = n.images[k], "images")
    \cup If(\A k \in Slots : "type" \in DOMAIN e.images[k] => e.images[k].type = 3, "type")

Outcome(e) ==
    CASE e.e = "device" -> If(e.t = (IF Allowed(s, e) THEN 0 ELSE 1), IF Allowed(s, e) THEN "refused" ELSE "accepted")
      [] e.e = "image" -> If(e.t = 0, "refused") \cup If(e.op = "read" => e.host = s.images[e.a].rows, "read")
      [] e.e = "together" -> If(e.t = 0, "refused")
      [] e.e = "values" -> If(e.t = 0 /\ e.out = e.v /\ e.out2 = e.w2 /\ e.one = e.x /\ e.two = e.y, "values")
      [] e.e = "reserve" -> If(e.t = 0 \/ OnDevice(s, e.d) # {}, "refused")
      [] e.e = "nodevice" -> If(e.t = 1, "accepted")
      [] OTHER -> {"driver"}

Judge(e, n) ==
    CASE e.e \in {"begin", "start", "end"} -> {}
      [] OTHER -> Outcome(e) \cup Observed(e, n)

\* after a difference the specification goes on with what was observed, so that one fault is told once
Seen(e, n) == [n EXCEPT !.images = [k \in Slots |-> Strip(e.images[k])]]

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
           n == TLCEval(Next1(e))
           j == Judge(e, n)
       IN /\ bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
          /\ s' = IF j = {} \/ e.e = "begin" THEN n ELSE Seen(e, n)
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
