------------------------------- MODULE Device -------------------------------
(* OpenCL devices: which are open, which one each thread works with, their queues, and the images which live on them.

   A state is [n, open, active, queues, images]: n devices 0 .. n-1 exist; active gives each thread its device (0 at first,
   open or not); queues of an open device are [count, current]; images gives each slot an image or NoImage.
   An operation either takes place (After) or is refused and changes nothing.                                               *)
EXTENDS Integers, Sequences, FiniteSets

NoImage == [dev |-> -1, w |-> 0, h |-> 0, cc |-> 1, al |-> 1, rows |-> <<>>]
Start(n, threads, slots) == [n |-> n, open |-> {}, active |-> [t \in threads |-> 0], queues |-> [d \in {} |-> 0], images |-> [k \in slots |-> NoImage]]

Known(s, d) == d < s.n
FreshQueues == [count |-> 1, current |-> 0]
WithOpen(s, ds) == [s EXCEPT !.open = @ \cup ds, !.queues = [d \in (DOMAIN s.queues \cup ds) |-> IF d \in DOMAIN s.queues THEN s.queues[d] ELSE FreshQueues]]
WithoutOpen(s, ds) == [s EXCEPT !.open = @ \ ds, !.queues = [d \in (DOMAIN s.queues \ ds) |-> s.queues[d]]]
All(s) == 0 .. s.n - 1

\* the device a thread works with, or -1
Working(s, t) == IF s.active[t] \in s.open THEN s.active[t] ELSE -1

MostQueues == 255
Count(c) == IF c > MostQueues THEN MostQueues ELSE IF c < 1 THEN 1 ELSE c
WithCount(q, c) == [count |-> Count(c), current |-> IF q.current >= Count(c) THEN 0 ELSE q.current]
WithCurrent(q, c) == IF c < q.count THEN [q EXCEPT !.current = c] ELSE q

Allowed(s, e) ==
    CASE e.op \in {"init", "close"} -> Known(s, e.d)
      [] e.op \in {"initall", "closeall", "reset"} -> TRUE
      [] e.op = "active" -> e.d \in s.open
      [] e.op \in {"queues", "queue"} -> e.d \in s.open
      [] OTHER -> TRUE

\* what an operation on devices does
After(s, e) ==
    IF ~Allowed(s, e) THEN s
    ELSE CASE e.op = "init" -> WithOpen(s, {e.d})
           [] e.op = "close" -> WithoutOpen(s, {e.d})
           [] e.op = "initall" -> WithOpen(s, All(s))
           [] e.op \in {"closeall", "reset"} -> WithoutOpen(s, All(s))
           [] e.op = "active" -> [s EXCEPT !.active[e.th] = e.d]
           [] e.op = "queues" -> [s EXCEPT !.queues[e.d] = WithCount(@, e.c)]
           [] e.op = "queue" -> [s EXCEPT !.queues[e.d] = WithCurrent(@, e.c)]
           [] OTHER -> s

(* Images. A picture is its geometry and the values of its pixels. *)
Filled(im, v) == [im EXCEPT !.rows = [y \in 1 .. im.h |-> [k \in 1 .. im.w * im.cc |-> v]]]
Inverted(im) == [im EXCEPT !.rows = [y \in 1 .. im.h |-> [k \in 1 .. im.w * im.cc |-> 255 - im.rows[y][k]]]]
Apart(a, b) == IF a > b THEN a - b ELSE b - a
Differences(a, b) == [a EXCEPT !.rows = [y \in 1 .. a.h |-> [k \in 1 .. a.w * a.cc |-> Apart(a.rows[y][k], b.rows[y][k])]]]
OnDevice(s, d) == {k \in DOMAIN s.images : s.images[k].dev = d}
=============================================================================
