-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic for the field models.  A number is a pair      *)
(* <<n, d>> in lowest terms with d > 0.  Pairs with d = 0 are the           *)
(* non-numbers an observation of the real code can contain:                 *)
(*   <<0,0>> masked / absent     <<1,0>> NaN shown as a valid value         *)
(*   <<2,0>> +inf   <<3,0>> -inf   <<4,0>> not a small rational             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

M   == <<0, 0>>
NAN == <<1, 0>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(n) == IF n < 0 THEN -n ELSE n

IsNum(q)  == q[2] # 0
R(n)      == <<n, 1>>
Zero      == <<0, 1>>
One       == <<1, 1>>
Norm(n, d) ==
    IF d = 0 THEN <<4, 0>>
    ELSE LET g == Gcd(AbsI(n), AbsI(d))
             s == IF d < 0 THEN -1 ELSE 1
         IN  <<s * (n \div g), s * (d \div g)>>
\* \div rounds down, but g divides n and d exactly, so it is exact here.

QAdd(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN M
              ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] + b[1], 1>>
              ELSE LET g == Gcd(a[2], b[2])
                       k == b[2] \div g
                   IN  Norm(a[1] * k + b[1] * (a[2] \div g), a[2] * k)
QNeg(a)    == IF a[2] = 0 THEN a ELSE <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN M
              ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
              ELSE LET g1 == Gcd(AbsI(a[1]), b[2])
                       g2 == Gcd(AbsI(b[1]), a[2])
                   IN  Norm((a[1] \div g1) * (b[1] \div g2),
                            (a[2] \div g2) * (b[2] \div g1))
QInv(a)    == IF a[2] = 0 \/ a[1] = 0 THEN M
              ELSE IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
QAbs(a)    == IF a[2] = 0 THEN a ELSE <<AbsI(a[1]), a[2]>>
QLt(a, b)  == a[1] * b[2] < b[1] * a[2]
QLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
QMin(a, b) == IF QLe(a, b) THEN a ELSE b
QMax(a, b) == IF QLe(a, b) THEN b ELSE a
QSq(a)     == QMul(a, a)
QHalf(a)   == QMul(a, <<1, 2>>)
Sgn(a)     == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

RECURSIVE QPowN(_, _)
QPowN(a, n) == IF n = 0 THEN One ELSE QMul(a, QPowN(a, n - 1))
QPow(a, n)  == IF a[2] = 0 THEN a
               ELSE IF n >= 0 THEN QPowN(a, n) ELSE QInv(QPowN(a, -n))

RECURSIVE Pow10N(_)
Pow10N(n) == IF n = 0 THEN 1 ELSE 10 * Pow10N(n - 1)
Pow10(p)  == IF p >= 0 THEN <<Pow10N(p), 1>> ELSE <<1, Pow10N(-p)>>

RECURSIVE QSumSeq(_)
QSumSeq(s) == IF s = <<>> THEN Zero ELSE QAdd(Head(s), QSumSeq(Tail(s)))
RECURSIVE QMinSeq(_)
QMinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE QMin(s[1], QMinSeq(Tail(s)))
RECURSIVE QMaxSeq(_)
QMaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE QMax(s[1], QMaxSeq(Tail(s)))
QMeanSeq(s) == QDiv(QSumSeq(s), R(Len(s)))
QSumAbsPow(s, n) == QSumSeq([i \in 1..Len(s) |-> QPow(QAbs(s[i]), n)])

\* distance^2 of two points given as pairs of rationals
QDist2(p, q) == QAdd(QSq(QSub(p[1], q[1])), QSq(QSub(p[2], q[2])))

-----------------------------------------------------------------------------
(* sequence helpers *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MapS(F(_), s) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
Range1(s) == {s[i] : i \in 1..Len(s)}
Idx(s, P(_)) == \* ascending sequence of the indices i with P(i)
    SelectSeq([i \in 1..Len(s) |-> i], P)
Pick(s, idx) == [k \in 1..Len(idx) |-> s[idx[k]]]
Flat(m) == \* row-major flattening of a matrix
    LET nr == Len(m)
        nc == IF nr = 0 THEN 0 ELSE Len(m[1])
    IN  [k \in 1..(nr * nc) |-> m[((k - 1) \div nc) + 1][((k - 1) % nc) + 1]]
Ascending(s) == \A i \in 1..(Len(s) - 1) : QLt(s[i], s[i + 1])
Sorted(s) == \A i \in 1..(Len(s) - 1) : QLe(s[i], s[i + 1])
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
=============================================================================
