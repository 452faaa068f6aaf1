--------------------------- MODULE AllocatorTrace ---------------------------
(* Checks recorded histories of the real memory pool against Allocator. In the part of a history where several threads use
   the pool (c = 1) allocations are recorded when they have returned and releases before they are called, so that blocks
   which are in use at the same time in the trace are in use at the same time.                                             *)
EXTENDS Allocator, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, atReserve
vars == <<l, s, bad, atReserve>>

Init == l = 1 /\ s = InitialState /\ bad = <<>> /\ atReserve = {}
If(c, reason) == IF c THEN {} ELSE {reason}
Block(e) == [blk |-> e.blk, off |-> e.off, len |-> e.len, pool |-> e.pool = 1]

Judge(e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "end" -> If(e.leak = 0, "leak")
      [] e.e = "rescall" -> {}
      [] e.e = "resret" ->
           IF e.x = 0 THEN If(e.n # 0 /\ (e.n = s.size \/ atReserve \cap PoolBlocks(s) = {}), "accepted")
           ELSE If(e.x = 1, "exception") \cup If(e.c = 1 \/ ReserveMayFail(s, e.n), "refused")
      [] e.e = "alloc" ->
           IF e.x # 0 THEN {"refused"}
           ELSE If(e.known = 1, "beyond")
                \cup AllocReasons(s, Block(e), e.cap, e.al = 1)
                \cup (IF e.c = 1 THEN {} ELSE CapacityReasons(s, <<e.len, e.es>>, e.pool = 1))
      [] e.e = "free" -> If(e.ok = 1, "contents")
      [] e.e = "huge" -> If(e.x = 1, IF e.x = 0 THEN "accepted" ELSE "exception")
      [] e.e = "abandoned" -> {}
      [] OTHER -> {e.e}

Following(e) ==
    CASE e.e = "begin" -> InitialState
      [] e.e = "resret" /\ e.x = 0 -> LET t == ReserveNext(s, e.n) IN IF PoolBlocks(t) = {} THEN t ELSE [t EXCEPT !.hist = Mixed]
      [] e.e = "alloc" /\ e.x = 0 -> AllocNext(s, e.id, Block(e), <<e.len, e.es>>, e.pool = 1, e.c = 0)
      [] e.e = "free" -> FreeNext(s, e.id)
      [] OTHER -> s

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
           j == Judge(e)
       IN /\ bad' = IF j = {} THEN bad ELSE Append(bad, <<l, j>>)
          /\ s' = Following(e)
          /\ atReserve' = IF e.e = "begin" THEN {} ELSE IF e.e = "rescall" THEN PoolBlocks(s) ELSE atReserve

Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT(<<"RESULT", "lines", Len(Trace), "bad", bad>>)
=============================================================================
