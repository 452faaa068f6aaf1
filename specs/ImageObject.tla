----------------------------- MODULE ImageObject -----------------------------
(* Image objects (src/image_buffer.h): geometry, contents and ownership of the
   buffer over any history of operations on a number of images.

   An image is a record
     live  the object exists
     ty    kind of memory it uses (0 plain; other kinds bring their own allocation functions)
     w h cc al rs   width, height, colour count, alignment, row size
     b     its buffer: 0 none, Fresh a new one, anything else an identity
     d     contents of the buffer, row after row, with padding: a sequence, or Undefined

   Apply(S, e) gives what operation e has to do in state S: the images after it, whether it throws and what it returns.
   e is a record [op, s, t, a, hu, b, dat]: s and t are images, a numbers, hu marks a width whose row does not fit into
   32 bits, b and dat describe memory given by the caller.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Fresh == -1
Undefined == <<-1>>

Dead == [live |-> FALSE, ty |-> 0, w |-> 0, h |-> 0, cc |-> 1, al |-> 1, rs |-> 0, b |-> 0, d |-> <<>>]
Default(ty) == [Dead EXCEPT !.live = TRUE, !.ty = ty]

RowSize(w, cc, al) == ((w * cc + al - 1) \div al) * al

Cleared(m) == [m EXCEPT !.w = 0, !.h = 0, !.rs = 0, !.b = 0, !.d = <<>>]

SetColourCount(m, n) == IF n > 0 /\ n # m.cc THEN [Cleared(m) EXCEPT !.cc = n] ELSE m
SetAlignment(m, n) == IF n > 0 /\ n # m.al THEN [Cleared(m) EXCEPT !.al = n] ELSE m
Resize(m, w, h) ==
    IF w > 0 /\ h > 0 /\ (w # m.w \/ h # m.h)
      THEN [m EXCEPT !.w = w, !.h = h, !.rs = RowSize(w, m.cc, m.al), !.b = Fresh, !.d = Undefined]
      ELSE m

Constructed(ty, w, h, cc, al) == Resize(SetAlignment(SetColourCount(Default(ty), cc), al), w, h)

CopyOf(src) == [src EXCEPT !.b = IF src.b = 0 THEN 0 ELSE Fresh]
Assigned(m, w, h, cc, al, b, dat) == [m EXCEPT !.w = w, !.h = h, !.cc = cc, !.al = al, !.rs = RowSize(w, cc, al), !.b = b, !.d = dat]

Put(S, s, m) == [S EXCEPT ![s] = m]
Done(S, r) == [S |-> S, x |-> FALSE, r |-> r]
Throws(S) == [S |-> S, x |-> TRUE, r |-> 0]

Apply(S, e) ==
    LET m == S[e.s]
        o == S[e.t]
        A(k) == e.a[k]
    IN
    CASE e.op = "new" -> IF e.hu = 1 THEN [S |-> Put(S, e.s, Dead), x |-> TRUE, r |-> 0]
                         ELSE Done(Put(S, e.s, Constructed(A(1), A(2), A(3), A(4), A(5))), 0)
      [] e.op = "del" -> Done(Put(S, e.s, Dead), 0)
      [] e.op = "cctor" -> Done(Put(S, e.s, CopyOf(o)), 0)
      [] e.op = "mctor" -> Done(Put(Put(S, e.s, o), e.t, Default(0)), 0)
      [] e.op \in {"casg", "copy"} ->
           IF e.s = e.t THEN Done(S, 0)
           ELSE IF m.ty # o.ty THEN Throws(S)
           ELSE Done(Put(S, e.s, CopyOf(o)), 0)
      [] e.op \in {"masg", "swap"} -> Done(Put(Put(S, e.s, o), e.t, m), 0)
      [] e.op = "resize" -> IF e.hu = 1 THEN Throws(S) ELSE Done(Put(S, e.s, Resize(m, A(1), A(2))), 0)
      [] e.op = "cc" -> Done(Put(S, e.s, SetColourCount(m, A(1))), 0)
      [] e.op = "al" -> Done(Put(S, e.s, SetAlignment(m, A(1))), 0)
      [] e.op = "clear" -> Done(Put(S, e.s, Cleared(m)), 0)
      [] e.op = "assign" -> IF e.b = 0 \/ A(1) = 0 \/ A(2) = 0 \/ A(3) = 0 \/ A(4) = 0 \/ e.hu = 1 THEN Throws(S)
                            ELSE Done(Put(S, e.s, Assigned(m, A(1), A(2), A(3), A(4), e.b, e.dat)), 0)
      [] e.op = "mutate" -> IF A(3) = 0 \/ A(4) = 0 \/ e.hu = 2 THEN Done(S, 0)
                            ELSE IF e.hu = 1 THEN Throws(S)
                            ELSE IF RowSize(A(1), A(3), A(4)) * A(2) # m.rs * m.h THEN Done(S, 0)
                            ELSE Done(Put(S, e.s, [m EXCEPT !.w = A(1), !.h = A(2), !.cc = A(3), !.al = A(4), !.rs = RowSize(A(1), A(3), A(4))]), 1)
      [] e.op = "fill" -> Done(Put(S, e.s, [m EXCEPT !.d = [k \in 1 .. m.h * m.rs |-> A(1)]]), 0)
      [] e.op = "set" -> Done(Put(S, e.s, IF A(1) < m.h * m.rs THEN [m EXCEPT !.d = IF @ = Undefined THEN @ ELSE [@ EXCEPT ![A(1) + 1] = A(2)]] ELSE m), 0)
      [] e.op = "gen" -> Done(Put(S, e.s, Constructed(o.ty, A(1), A(2), A(3), A(4))), 0)
      [] e.op = "eq" -> Done(S, IF [m EXCEPT !.d = <<>>] = [o EXCEPT !.d = <<>>] THEN 1 ELSE 0)

(* whether an operation can be called at all: images which exist, the place of a new one is free *)
Callable(S, e) ==
    CASE e.op = "new" -> ~S[e.s].live
      [] e.op \in {"cctor", "mctor", "gen"} -> ~S[e.s].live /\ S[e.t].live
      [] e.op \in {"casg", "copy", "masg", "swap", "eq"} -> S[e.s].live /\ S[e.t].live
      [] OTHER -> S[e.s].live

----------------------------------------------------------------------------
(* What holds in every state *)
WellFormed(m) ==
    /\ (m.b = 0) = (m.w = 0)
    /\ (m.b = 0) = (m.h = 0)
    /\ m.rs = RowSize(m.w, m.cc, m.al)
    /\ m.rs >= m.w * m.cc /\ m.rs < m.w * m.cc + m.al /\ m.rs % m.al = 0
Owners(S) == {s \in DOMAIN S : S[s].live /\ S[s].b # 0}
Disjoint(S) == \A s, t \in Owners(S) : s # t => S[s].b # S[t].b
=============================================================================
