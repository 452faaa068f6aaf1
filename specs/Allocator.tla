------------------------------ MODULE Allocator ------------------------------
(* What users of the memory pool (src/memory) may rely on. A pool hands out
   blocks of the memory reserved in it, or of the heap.

   The state is a record
     size     reserved bytes, 0 none
     live     blocks in use: function id -> [blk, off, len, pool]: the piece of memory it lies in, its offset in it and its
              length, and whether that piece is reserved memory
     hist     the requests made since the reserved memory was last unused as a whole, if nothing was freed since then and
              nobody else made requests: <<length, element size>>; otherwise Mixed
     first    hist is the first since the memory was reserved
     served   histories whose last request was served from reserved memory that had just been reserved                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Mixed == <<<<-1, -1>>>>
InitialState == [size |-> 0, live |-> <<>>, hist |-> <<>>, first |-> TRUE, served |-> {}]

RECURSIVE PowerFor(_, _)
PowerFor(n, p) == IF p >= n THEN p ELSE PowerFor(n, 2 * p)
Rounded(n) == PowerFor(n, 1)
RECURSIVE SumRounded(_)
SumRounded(h) == IF h = <<>> THEN 0 ELSE Rounded(Head(h)[1]) + SumRounded(Tail(h))
Descending(h) == \A k \in 1 .. Len(h) - 1 : Rounded(h[k][1]) >= Rounded(h[k + 1][1])

PoolBlocks(s) == {i \in DOMAIN s.live : s.live[i].pool}
Apart(a, b) == a.blk # b.blk \/ a.off + a.len <= b.off \/ b.off + b.len <= a.off

(* requests a pool of this size has to serve when nothing else is in use: sizes rounded to powers of two, biggest first, as
   long as they fit; a request for all of the memory may be refused                                                         *)
MustServe(size, h) == \A k \in 1 .. Len(h) : h[k][1] < size
                      /\ Descending(h) /\ SumRounded(h) <= size

AllocReasons(s, b, cap, aligned) ==
    (IF \A i \in DOMAIN s.live : Apart(s.live[i], b) THEN {} ELSE {"overlap"})
    \cup (IF b.off >= 0 /\ b.off + b.len <= cap THEN {} ELSE {"beyond"})
    \cup (IF aligned THEN {} ELSE {"unaligned"})

CapacityReasons(s, request, pool) ==
    LET h == Append(s.hist, request)
    IN IF s.size = 0 \/ s.hist = Mixed \/ pool THEN {}
       ELSE (IF MustServe(s.size, h) THEN {"capacity"} ELSE {})
            \cup (IF ~s.first /\ h \in s.served THEN {"capacity"} ELSE {})

AllocNext(s, id, b, request, pool, quiet) ==
    LET h == IF s.hist = Mixed \/ ~quiet THEN Mixed ELSE Append(s.hist, request)
    IN [s EXCEPT !.live = (id :> b) @@ @,
                 !.hist = h,
                 !.served = IF s.first /\ pool /\ h # Mixed THEN @ \cup {h} ELSE @]

FreeNext(s, id) ==
    LET l == [i \in DOMAIN s.live \ {id} |-> s.live[i]]
        t == [s EXCEPT !.live = l]
    IN IF PoolBlocks(t) = {} THEN [t EXCEPT !.hist = <<>>, !.first = s.first /\ s.hist = <<>>] ELSE [t EXCEPT !.hist = Mixed]

(* reserve: refused for nothing and while blocks of the pool are in use; the same size again changes nothing *)
ReserveMustFail(s, n) == n = 0 \/ (n # s.size /\ PoolBlocks(s) # {})
ReserveMayFail(s, n) == ReserveMustFail(s, n) \/ (n # s.size /\ s.live # <<>>)
ReserveNext(s, n) == IF n = s.size THEN s ELSE [s EXCEPT !.size = n, !.hist = <<>>, !.first = TRUE, !.served = {}]
=============================================================================
