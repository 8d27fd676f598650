------------------------------- MODULE Units -------------------------------
(* A physical unit is <<p, m, s, kg, rad, px, counts>>: 10^p times a product *)
(* of integer powers of base units.  p is the decimal prefix (mm: p = -3).   *)
EXTENDS Rat

UD == 7
UNone == [i \in 1..UD |-> 0]
UMul(a, b) == [i \in 1..UD |-> a[i] + b[i]]
UDivU(a, b) == [i \in 1..UD |-> a[i] - b[i]]
UPow(a, n) == [i \in 1..UD |-> n * a[i]]
UInv(a) == UPow(a, -1)
\* the radian is a number: it does not make units incompatible
UCompat(a, b) == \A i \in 2..UD : i = 5 \/ a[i] = b[i]
\* factor by which a number in unit a must be multiplied to be in unit b
UFact(a, b) == Pow10(a[1] - b[1])
\* the same physical quantity: number q1 in unit u1 and q2 in unit u2
PhysEq(q1, u1, q2, u2) ==
    /\ UCompat(u1, u2)
    /\ AbsI(u1[1] - u2[1]) < 9
    /\ IF q1[2] = 0 \/ q2[2] = 0 THEN q1 = q2
       ELSE IF u1[1] >= u2[1] THEN QMul(q1, Pow10(u1[1] - u2[1])) = q2
       ELSE q1 = QMul(q2, Pow10(u2[1] - u1[1]))
=============================================================================
