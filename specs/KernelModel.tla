---------------------------- MODULE KernelModel -----------------------------
(* The code's walk over the memory of the kernel (a pointer to the first value, rows of the kernel apart by the width), all sizes,
   against Kernel. Values are numerators: num^d2 * den^(2k*k - d2); the sum is their common denominator.                      *)
EXTENDS Kernel, FiniteSets, TLC
CONSTANTS Sizes, Reaches, Fractions, Fault
VARIABLES w, h, k, q, memory, at, px, py, sum, step
vars == <<w, h, k, q, memory, at, px, py, sum, step>>
SomeFractions == {<<1, 2>>, <<2, 3>>, <<0, 1>>, <<1, 1>>}

Power(b, n) == LET p[i \in 0 .. n] == IF i = 0 THEN 1 ELSE b * p[i - 1] IN p[n]
Start == IF Fault = "Middle" THEN ((h - 1) \div 2 - k) * w + (w - 1) \div 2 - k ELSE (h \div 2 - k) * w + w \div 2 - k
Init ==
    /\ w \in Sizes /\ h \in Sizes /\ k \in Reaches /\ q \in Fractions
    /\ KernelOk(w, h, k)
    /\ memory = [i \in 0 .. w * h - 1 |-> 0] /\ at = Start /\ px = -k /\ py = -k /\ sum = 0 /\ step = "weights"
Weight(x, y) == LET d == IF Fault = "Manhattan" THEN Abs(x) + Abs(y) ELSE x * x + y * y IN Power(q[1], d) * Power(q[2], 2 * k * k - d)
\* one row of the kernel; the columns at once
Row ==
    /\ step = "weights" /\ py <= k
    /\ memory' = TLCEval([i \in DOMAIN memory |-> IF i >= at /\ i <= at + 2 * k THEN Weight(i - at - k, py) ELSE memory[i]])
    /\ sum' = LET s[x \in -k - 1 .. k] == IF x < -k THEN 0 ELSE s[x - 1] + Weight(x, py) IN IF Fault = "LastRow" THEN s[k] ELSE sum + s[k]
    /\ at' = at + (IF Fault = "Stride" THEN h ELSE w) /\ py' = py + 1
    /\ UNCHANGED <<w, h, k, q, px, step>>
Done == step = "weights" /\ py > k /\ step' = "done" /\ UNCHANGED <<w, h, k, q, memory, at, px, py, sum>>
Next == Row \/ Done
Spec == Init /\ [][Next]_vars

Value(x, y) == memory[y * w + x]
Cells == (0 .. w - 1) \X (0 .. h - 1)
Total == LET s[i \in -1 .. w * h - 1] == IF i < 0 THEN 0 ELSE s[i - 1] + memory[i] IN s[w * h - 1]
IsKernel == step = "done" => \A c \in Cells :
    Value(c[1], c[2]) = IF Within(w, h, k, c[1], c[2])
                        THEN LET d == Distance2(w, h, c[1], c[2]) IN Power(q[1], d) * Power(q[2], 2 * k * k - d) ELSE 0
Normalised == step = "done" => sum = Total /\ sum > 0
\* what the users of a kernel expect: no direction is preferred, it is a product of a row and a column, it grows towards the middle
Symmetric == step = "done" => \A c \in Cells : Within(w, h, k, c[1], c[2]) =>
    LET x == c[1] - w \div 2
        y == c[2] - h \div 2
    IN /\ Value(w \div 2 - x, h \div 2 + y) = Value(c[1], c[2])
       /\ Value(w \div 2 + x, h \div 2 - y) = Value(c[1], c[2])
       /\ Value(w \div 2 + y, h \div 2 + x) = Value(c[1], c[2])
Separable == step = "done" => \A c \in Cells : Value(c[1], c[2]) * Value(w \div 2, h \div 2) = Value(c[1], h \div 2) * Value(w \div 2, c[2])
Peak == step = "done" => \A c \in Cells : Value(c[1], c[2]) <= Value(w \div 2, h \div 2)
=============================================================================
