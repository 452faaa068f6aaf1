----------------------------- MODULE EdgeModel ------------------------------
(* The search of the library along one profile, step by step, for every profile of Length values out of Values, against
   the definition in Edge; and laws of the definition. Fault is a defect to be found, "none" otherwise.                 *)
EXTENDS Edge, TLC
CONSTANTS Length, Values, Contrasts, Offsets, Fault

VARIABLES d, p, i, j, phase, half, third, halfFound, thirdFound, left, leftThird, leftFound, right, found
vars == <<d, p, i, j, phase, half, third, halfFound, thirdFound, left, leftThird, leftFound, right, found>>

Init ==
    /\ d \in [1 .. Length -> Values]
    /\ p \in { [left |-> a, right |-> b, contrast |-> c, strict |-> FALSE] : a \in Offsets, b \in Offsets, c \in Contrasts }
    /\ i = 1 /\ j = 0 /\ phase = "peak" /\ half = 0 /\ third = 0 /\ halfFound = FALSE /\ thirdFound = FALSE
    /\ left = 0 /\ leftThird = 0 /\ leftFound = <<FALSE, FALSE>> /\ right = <<0, 0>> /\ found = <<>>

Peak ==
    /\ phase = "peak" /\ i < Length - (IF Fault = "StopsEarly" THEN 3 ELSE 2)
    /\ LET m == Slope(d, i) IN
       IF Bend(d, i) < 0 \/ Bend(d, i + 1) > 0 \/ m <= 0
       THEN i' = i + 1 /\ UNCHANGED <<j, phase, half, third, halfFound, thirdFound, left, leftThird, leftFound>>
       ELSE /\ third' = (IF m < 3 THEN 1 ELSE m \div 3)
            /\ half' = (IF m < 2 THEN 1 ELSE m \div 2)
            /\ j' = i /\ phase' = "left" /\ halfFound' = FALSE /\ thirdFound' = FALSE /\ left' = i /\ leftThird' = i /\ leftFound' = <<FALSE, FALSE>>
            /\ UNCHANGED i
    /\ UNCHANGED <<d, p, right, found>>

\* one step of the walk to either side
Walk(end, step, following) ==
    LET s == Slope(d, j)
        h == halfFound \/ s < half
        t == s < third
        stop == t \/ (s > Slope(d, i) /\ Fault # "CrossesSteeper") \/ j = end
    IN /\ halfFound' = h /\ thirdFound' = t
       /\ left' = IF ~halfFound /\ h THEN j ELSE left
       /\ leftThird' = IF t THEN j ELSE leftThird
       /\ j' = IF stop THEN j ELSE j + step
       /\ phase' = IF stop THEN following ELSE phase

Left == phase = "left" /\ Walk(0, -1, "turn") /\ UNCHANGED <<d, p, i, half, third, leftFound, right, found>>

Turn ==
    /\ phase = "turn"
    /\ IF halfFound \/ thirdFound
       THEN /\ leftFound' = <<halfFound, thirdFound>> /\ right' = <<left, leftThird>>
            /\ j' = i + 1 /\ phase' = "right" /\ halfFound' = FALSE /\ thirdFound' = FALSE /\ left' = i + 1 /\ leftThird' = i + 1
            /\ UNCHANGED i
       ELSE i' = i + 1 /\ phase' = "peak" /\ UNCHANGED <<j, halfFound, thirdFound, left, leftThird, leftFound, right>>
    /\ UNCHANGED <<d, p, half, third, found>>

Right == phase = "right" /\ Walk(Length - 2, 1, "decide") /\ UNCHANGED <<d, p, i, half, third, leftFound, right, found>>

SidesAt(a, b) ==
    LET l == p.left
        r == p.right
        check == IF Fault = "EitherOffset" THEN l > 0 \/ r > 0 ELSE l > 0 /\ r > 0
    IN /\ Span(d, a, b) >= p.contrast
       /\ check => /\ l <= i /\ (IF Fault = "ReachesBeyond" THEN r + i <= Length ELSE r + i < Length)
                   /\ IF r + i < Length THEN SumOf(d, i + 1, i + r) * (l + 1) - SumOf(d, i - l, i) * r >= p.contrast * r * (l + 1) ELSE TRUE

Decide ==
    /\ phase = "decide"
    /\ LET near == leftFound[1] /\ halfFound /\ SidesAt(right[1], left)
           far == leftFound[2] /\ thirdFound /\ SidesAt(right[2], leftThird)
           ok == IF Fault = "OnlyNear" THEN near ELSE near \/ far
       IN found' = IF ok THEN Append(found, i) ELSE found
    /\ i' = i + 1 /\ phase' = "peak"
    /\ UNCHANGED <<d, p, j, half, third, halfFound, thirdFound, left, leftThird, leftFound, right>>

Next == Peak \/ Left \/ Turn \/ Right \/ Decide
Spec == Init /\ [][Next]_vars

Done == phase = "peak" /\ i >= Length - 2
InBounds == j \in 0 .. Length - 2 /\ i \in 1 .. Length - 2
Exact == (phase = "peak" /\ i >= Length - (IF Fault = "StopsEarly" THEN 3 ELSE 2)) => found = SetToSortSeq({ k \in 1 .. Length - 3 : IsEdge(d, k, p) }, <)

Brighter == [k \in 1 .. Length |-> d[k] + 7]
Laws == Done =>
    LET up == Rising(d, p)
        down == Falling(d, p)
    IN /\ \A k \in 1 .. Len(up) : up[k] \in 1000 .. 1000 * (Length - 2)              \* inside
       /\ \A k \in 1 .. Len(up) - 1 : up[k + 1] - up[k] >= 1000                      \* apart
       /\ Rising(Brighter, p) = up                                                    \* only differences count
       /\ Falling(Reversed(d), p) = [k \in 1 .. Len(up) |-> 1000 * (Length - 1) - up[Len(up) + 1 - k]]   \* mirrored
       /\ Len(up) > 0 => \E a, b \in 1 .. Length : d[b] - d[a] >= p.contrast           \* no edge without the contrast
       /\ \A kind \in {"first", "last"} : Len(Selected(up, kind, TRUE)) = Min({1, Len(up)})
       /\ Selected(down, "first", TRUE) = Selected(down, "last", FALSE)
\* a larger contrast finds no other edges
Monotone == Done => \A k \in 1 .. Length - 3 : IsEdge(d, k, [p EXCEPT !.contrast = @ + 1]) => IsEdge(d, k, p)
=============================================================================
