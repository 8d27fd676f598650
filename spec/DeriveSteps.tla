---------------------------- MODULE DeriveSteps ----------------------------
(* Derivatives of fields and the vortex criteria built on them.              *)
(* Derivatives are second-order differences inside an evenly spaced grid and *)
(* first-order ones at its borders; a derivative that uses a masked point is *)
(* masked.  Where a criterion is a square root it is observed squared.       *)
EXTENDS DiskSteps

DX(f) == QSub(f.ax[2], f.ax[1])
DY(f) == QSub(f.ay[2], f.ay[1])
Slope(a, b, h) == QDiv(QSub(b, a), h)
Dx(f, c, i, j) == LET n == NX(f) IN
    IF i = 1 THEN Slope(f.v[c][1][j], f.v[c][2][j], DX(f))
    ELSE IF i = n THEN Slope(f.v[c][n - 1][j], f.v[c][n][j], DX(f))
    ELSE Slope(f.v[c][i - 1][j], f.v[c][i + 1][j], QMul(R(2), DX(f)))
Dy(f, c, i, j) == LET n == NY(f) IN
    IF j = 1 THEN Slope(f.v[c][i][1], f.v[c][i][2], DY(f))
    ELSE IF j = n THEN Slope(f.v[c][i][n - 1], f.v[c][i][n], DY(f))
    ELSE Slope(f.v[c][i][j - 1], f.v[c][i][j + 1], QMul(R(2), DY(f)))
NoGrad(f) == NX(f) < 2 \/ NY(f) < 2
\* the Jacobian, row by row (one row for a scalar); masked as a whole
JNone == <<>>
JacAt(f, i, j) ==
    LET g == TLCEval([k \in 1..(2 * f.nc) |-> IF k % 2 = 1 THEN Dx(f, (k + 1) \div 2, i, j)
                                              ELSE Dy(f, k \div 2, i, j)])
    IN  IF \E k \in 1..Len(g) : g[k] = M THEN JNone ELSE g
Jac(f) == Mat(NX(f), NY(f), LAMBDA i, j : JacAt(f, i, j))
UGrad(f, k) == UDivU(f.uv, IF k % 2 = 1 THEN f.ux ELSE f.uy)
GradMat(f, k) == LET J == Jac(f) IN
    Mat(NX(f), NY(f), LAMBDA i, j : IF J[i][j] = JNone THEN M ELSE J[i][j][k])
GradField(f, k) == [f EXCEPT !.nc = 1, !.v = <<GradMat(f, k)>>, !.uv = UGrad(f, k)]
Scalar(f, mat, uv) == [f EXCEPT !.nc = 1, !.v = <<mat>>, !.uv = uv]

(* local criteria: a function of the Jacobian <<a, b, c, d>>, a = dVx/dx, b = dVx/dy ... *)
Tr(J) == QAdd(J[1], J[4])
Det(J) == QSub(QMul(J[1], J[4]), QMul(J[2], J[3]))
Omega(J) == QHalf(QSub(J[3], J[2]))
Rot2(J) == QHalf(QSq(QSub(J[2], J[3])))
Shear2(J) == QAdd(QAdd(QSq(J[1]), QSq(J[4])), QHalf(QSq(QAdd(J[2], J[3]))))
QCrit(J) == QHalf(QSub(Rot2(J), Shear2(J)))
\* imaginary part of the eigenvalues, squared
Im2(J) == LET x == QSub(Det(J), QSq(QHalf(Tr(J)))) IN IF QLt(Zero, x) THEN x ELSE Zero
\* signed square
SSq(q) == IF QLt(q, Zero) THEN QNeg(QSq(q)) ELSE QSq(q)
Delta(J) == QAdd(QPow(QDiv(QCrit(J), R(3)), 3), QSq(QHalf(Det(J))))
\* principal rate of strain of Kolar's decomposition, squared
Strain2(J) == QDiv(QAdd(QMul(R(4), QSq(J[1])), QSq(QAdd(J[2], J[3]))), R(4))
ISqrt(n) == IF \E k \in 0..400 : k * k = n THEN CHOOSE k \in 0..400 : k * k = n ELSE -1
QSqrt(q) == LET n == ISqrt(q[1])
                d == ISqrt(q[2])
            IN  IF n < 0 \/ d < 0 THEN <<4, 0>> ELSE <<n, d>>
\* smallest eigenvalue of S^2 + Omega^2
Lam2(J) == LET m == QAbs(QHalf(Tr(J)))
               r == QSqrt(QAdd(QSq(QHalf(QSub(J[1], J[4]))), QSq(QHalf(QAdd(J[2], J[3])))))
           IN  QSub(QSq(QSub(m, r)), QSq(Omega(J)))
MaskedIn(a, i, j) == a.mask # <<>> /\ a.mask[i][j]
Crit(f, a, own, G(_)) == \* own: a masked point stays masked
    LET J == Jac(f) IN
    Mat(NX(f), NY(f), LAMBDA i, j :
        IF J[i][j] = JNone \/ MaskedIn(a, i, j) \/ (own /\ Masked(f, i, j)) THEN M ELSE G(J[i][j]))
LocalCrit(f, a) ==
    CASE a.kind = "q" -> Crit(f, a, FALSE, QCrit)
      [] a.kind = "nk2" -> Crit(f, a, FALSE, LAMBDA J : QDiv(Rot2(J), Shear2(J)))
      [] a.kind = "delta" -> Crit(f, a, FALSE, LAMBDA J : IF Im2(J) = Zero THEN M ELSE Delta(J))
      [] a.kind = "lam2" -> Crit(f, a, TRUE, Lam2)
      [] a.kind = "sw2" -> Crit(f, a, TRUE, Im2)
      [] a.kind = "isw2" -> Crit(f, a, TRUE, LAMBDA J : IF Im2(J) = Zero THEN M
                                                        ELSE QDiv(SSq(QHalf(Tr(J))), Im2(J)))
LocalUnit(f, a) == CASE a.kind = "q" -> UPow(UGrad(f, 1), 2) [] a.kind = "delta" -> UPow(UGrad(f, 1), 6) [] OTHER -> UNone
\* residual + shear = vorticity; the shear part squared; the sign of the residual part
Kolar(f) ==
    LET J == Jac(f) IN
    <<Mat(NX(f), NY(f), LAMBDA i, j : Omega(J[i][j])),
      Mat(NX(f), NY(f), LAMBDA i, j : QMin(Strain2(J[i][j]), QSq(Omega(J[i][j])))),
      Mat(NX(f), NY(f), LAMBDA i, j : IF QLt(Strain2(J[i][j]), QSq(Omega(J[i][j])))
                                      THEN R(Sgn(Omega(J[i][j]))) ELSE Zero)>>
\* eigenvalues: their sum, their product, the squared imaginary part of the first (the largest)
Eigen(f) ==
    LET J == Jac(f)
        at(i, j, G(_)) == IF J[i][j] = JNone THEN M ELSE G(J[i][j])
    IN  <<Mat(NX(f), NY(f), LAMBDA i, j : at(i, j, Tr)),
          Mat(NX(f), NY(f), LAMBDA i, j : at(i, j, Det)),
          Mat(NX(f), NY(f), LAMBDA i, j : at(i, j, Im2)), TRUE>>
Vort(f) == LET J == Jac(f) IN Scalar(f, Mat(NX(f), NY(f), LAMBDA i, j : Omega(J[i][j])), UGrad(f, 1))
Div2(f) == LET J == Jac(f) IN Scalar(f, Mat(NX(f), NY(f), LAMBDA i, j : Tr(J[i][j])), UGrad(f, 1))
\* circulation around every window of w x w points over the area it encloses
RECURSIVE EvenTrapz(_, _)
EvenTrapz(s, h) == IF Len(s) < 2 THEN Zero
               ELSE QAdd(QMul(h, QHalf(QAdd(s[1], s[2]))), EvenTrapz(Tail(s), h))
Stokes(f, w) ==
    LET nx == NX(f) - w + 1
        ny == NY(f) - w + 1
        sum(i, j) == QAdd(
            QSub(EvenTrapz([k \in 1..w |-> f.v[2][i + w - 1][j + k - 1]], DY(f)),
                 EvenTrapz([k \in 1..w |-> f.v[2][i][j + k - 1]], DY(f))),
            QSub(EvenTrapz([k \in 1..w |-> f.v[1][i + k - 1][j]], DX(f)),
                 EvenTrapz([k \in 1..w |-> f.v[1][i + k - 1][j + w - 1]], DX(f))))
        area == QMul(R((w - 1) * (w - 1)), QMul(DX(f), DY(f)))
        any(i, j) == \E p \in i..(i + w - 1) : \E q \in j..(j + w - 1) : Masked(f, p, q)
        mid(a, n) == [i \in 1..n |-> QHalf(QAdd(a[i], a[i + w - 1]))]
    IN  [f EXCEPT !.nc = 1, !.ax = mid(f.ax, nx), !.ay = mid(f.ay, ny), !.uv = UGrad(f, 1),
                  !.v = <<Mat(nx, ny, LAMBDA i, j : IF any(i, j) THEN M ELSE QDiv(sum(i, j), area))>>]

(* criteria on the points within a radius (in steps of the grid) of every point *)
Motif(r) == LET n == QFloor(r) IN
    {p \in ((-n)..n) \X ((-n)..n) : p # <<0, 0>> /\ QLe(R(p[1] * p[1] + p[2] * p[2]), QSq(r))}
Radius(f, a) == IF a.ind THEN a.r ELSE QDiv(a.r, QHalf(QAdd(DX(f), DY(f))))
Inside(f, c) == c[1] >= 1 /\ c[1] <= NX(f) /\ c[2] >= 1 /\ c[2] <= NY(f)
Off(f, a, c) == Masked(f, c[1], c[2]) \/ MaskedIn(a, c[1], c[2])
\* the points around as a sequence, so that sums have an order
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(TLCEval(S \ {x}))
Sum(s, F(_)) == QSumSeq(TLCEval([k \in 1..Len(s) |-> TLCEval(F(s[k]))]))
NonLocal(f, a, G(_, _)) == \* G(centre, the points around it)
    LET mo == TLCEval(SetSeq(Motif(Radius(f, a)))) IN
    Mat(NX(f), NY(f), LAMBDA i, j :
        LET s == TLCEval([k \in 1..Len(mo) |-> <<i + mo[k][1], j + mo[k][2]>>]) IN
        IF Off(f, a, <<i, j>>) \/ (\E k \in 1..Len(s) : ~Inside(f, s[k])) THEN M
        ELSE IF \E k \in 1..Len(s) : Off(f, a, s[k]) THEN M
        ELSE G(<<i, j>>, s))
Vel(f, c) == <<f.v[1][c[1]][c[2]], f.v[2][c[1]][c[2]]>>
PosAt(f, c) == <<f.ax[c[1]], f.ay[c[2]]>>
Minus(p, q) == <<QSub(p[1], q[1]), QSub(p[2], q[2])>>
Cross(p, q) == QSub(QMul(p[1], q[2]), QMul(p[2], q[1]))
Dot(p, q) == QAdd(QMul(p[1], q[1]), QMul(p[2], q[2]))
Norm2(p) == QAdd(QSq(p[1]), QSq(p[2]))
Len2(p) == QSqrt(Norm2(p))
MeanVel(f, s) == TLCEval(<<QDiv(Sum(s, LAMBDA c : Vel(f, c)[1]), R(Len(s))),
                   QDiv(Sum(s, LAMBDA c : Vel(f, c)[2]), R(Len(s)))>>)
\* mean of the sines (cosines) of the angles between the position and the velocity
Swirl(f, m, s, ref0, P(_, _)) == LET ref == TLCEval(ref0) IN
    QDiv(Sum(s, LAMBDA c : LET x == Minus(PosAt(f, c), PosAt(f, m))
                               u == Minus(Vel(f, c), ref)
                           IN  IF Norm2(u) = Zero THEN Zero
                               ELSE QDiv(P(x, u), QMul(Len2(x), Len2(u)))),
         R(Len(s)))
NoVel == <<Zero, Zero>>
Gamma2b(f, s) ==
    LET v == MeanVel(f, s)
        sp == QSqrt(QDiv(Sum(s, LAMBDA c : Norm2(Minus(Vel(f, c), v))), R(Len(s))))
    IN  IF Norm2(v) = Zero THEN One ELSE QMin(One, QDiv(sp, Len2(v)))
Direction(u) == \* in eighths of a turn
    LET x == Sgn(u[1])
        y == Sgn(u[2])
    IN  CASE x = 1 /\ y = 0 -> 0 [] x = 1 /\ y = 1 -> 1 [] x = 0 /\ y = 1 -> 2 [] x = -1 /\ y = 1 -> 3
          [] x = -1 /\ y = 0 -> 4 [] x = -1 /\ y = -1 -> 5 [] x = 0 /\ y = -1 -> 6 [] x = 1 /\ y = -1 -> 7
\* the gaps between the sorted directions of the points around, against even gaps
RECURSIVE InsSort(_, _)
InsSort(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o InsSort(Tail(s), x)
RECURSIVE SortedDirs(_, _, _)
SortedDirs(f, ref, s) == IF s = <<>> THEN <<>>
    ELSE InsSort(SortedDirs(f, ref, Tail(s)), Direction(Minus(Vel(f, s[1]), ref)))
AngleDev(f, m, s, a) == \* order 1: the deviation; order 2: (1 - deviation)^2
    LET ref == TLCEval(CASE a.loc = "none" -> NoVel [] a.loc = "galilean_inv" -> MeanVel(f, s) [] a.loc = "local" -> Vel(f, m))
        n == Len(s)
        d == TLCEval(SortedDirs(f, ref, s))
        gap(k) == IF k = n THEN d[1] + 8 - d[n] ELSE d[k + 1] - d[k]
        best == Norm(8, n)
        dist(x) == IF a.order = 1 THEN QAbs(x) ELSE QSq(x)
        got == QSumSeq([k \in 1..n |-> dist(QSub(R(gap(k)), best))])
        worst == QAdd(QMul(R(n - 1), dist(best)), dist(QSub(R(8), best)))
    IN  IF a.order = 1 THEN QSub(One, QDiv(got, worst)) ELSE QDiv(got, worst)
\* slope of the least squares line through the points (x, v)
FitSlope(s, X(_), V(_)) ==
    LET n == R(Len(s))
        sx == Sum(s, X)
        sv == Sum(s, V)
    IN  QDiv(QSub(QMul(n, Sum(s, LAMBDA c : QMul(X(c), V(c)))), QMul(sx, sv)),
             QSub(QMul(n, Sum(s, LAMBDA c : QSq(X(c)))), QSq(sx)))
FitJac(f, s) == TLCEval([k \in 1..4 |-> FitSlope(s, LAMBDA c : PosAt(f, c)[IF k % 2 = 1 THEN 1 ELSE 2],
                                            LAMBDA c : Vel(f, c)[(k + 1) \div 2])])
Residual(J) == LET s == QSqrt(Strain2(J)) IN
    IF QLt(s, QAbs(Omega(J))) THEN QMul(R(Sgn(Omega(J))), QSub(QAbs(Omega(J)), s)) ELSE Zero
NLCrit(f, a) ==
    CASE a.kind = "gamma1" -> NonLocal(f, a, LAMBDA m, s : Swirl(f, m, s, NoVel, Cross))
      [] a.kind = "gamma1b" -> NonLocal(f, a, LAMBDA m, s : QMul(Swirl(f, m, s, NoVel, Cross), Len2(MeanVel(f, s))))
      [] a.kind = "gamma2" -> NonLocal(f, a, LAMBDA m, s : Swirl(f, m, s, MeanVel(f, s), Cross))
      [] a.kind = "gamma2b" -> NonLocal(f, a, LAMBDA m, s : QMul(Swirl(f, m, s, MeanVel(f, s), Cross), Gamma2b(f, s)))
      [] a.kind = "kappa1" -> NonLocal(f, a, LAMBDA m, s : Swirl(f, m, s, NoVel, Dot))
      [] a.kind = "kappa2" -> NonLocal(f, a, LAMBDA m, s : Swirl(f, m, s, MeanVel(f, s), Dot))
      [] a.kind = "angle" -> NonLocal(f, a, LAMBDA m, s : AngleDev(f, m, s, a))
      [] a.kind = "nlres" -> NonLocal(f, a, LAMBDA m, s : Residual(FitJac(f, s)))
      [] a.kind = "enst" ->
            LET w == TLCEval(Vort(f).v[1]) IN
            NonLocal(f, a, LAMBDA m, s : QMul(Sum(Append(s, m), LAMBDA c : QSq(w[c[1]][c[2]])), QMul(DX(f), DY(f))))
NLUnit(f, a) == CASE a.kind = "nlres" -> UGrad(f, 1)
                  [] a.kind = "enst" -> UMul(UPow(UGrad(f, 1), 2), UMul(f.ux, f.uy))
                  [] OTHER -> UNone
\* iota: (2 iota)^2 in eighths of a turn, for directions along the eight ones
Iota2(f, a) ==
    LET d1 == Mat(NX(f), NY(f), LAMBDA i, j : IF Masked(f, i, j) THEN M ELSE R(Direction(Vel(f, <<i, j>>))))
        d2 == Mat(NX(f), NY(f), LAMBDA i, j : IF d1[i][j] = M \/ d1[i][j][1] <= 4 THEN d1[i][j] ELSE R(d1[i][j][1] - 8))
        g(d) == [f EXCEPT !.nc = 1, !.v = <<d>>, !.ax = PixAxis(NX(f)), !.ay = PixAxis(NY(f))]
        sm(x, y) == IF x = M \/ y = M THEN M ELSE QMin(QSq(x), QSq(y))
    IN  Mat(NX(f), NY(f), LAMBDA i, j :
            LET x == QAdd(sm(Dx(g(d1), 1, i, j), Dx(g(d2), 1, i, j)), sm(Dy(g(d1), 1, i, j), Dy(g(d2), 1, i, j)))
            IN  IF Masked(f, i, j) \/ MaskedIn(a, i, j) THEN M ELSE x)

\* the function with slopes p along x and q along y, along the first column then each row
Along(p, q) == Mat(NX(p), NY(p), LAMBDA i, j :
    QAdd(EvenTrapz([k \in 1..i |-> p.v[1][k][1]], DX(p)), EvenTrapz([k \in 1..j |-> q.v[1][i][k]], DY(p))))
Centred(f) == LET m == TLCEval([c \in 1..f.nc |-> QMeanSeq(ValidSeq(f, c))])
              IN  MapCells(f, LAMBDA c, i, j, x : QSub(x, m[c]))

GStep(ws, e, o) ==
    LET a == e.a
        f == ws[e.s]
        put(x) == Phys(Done(Put(ws, e.d, x), <<>>))
        opt(G(_)) == \* a field, or one per time
            IF f.k = "T" THEN put([TMap(f, G) EXCEPT !.nc = 1]) ELSE put(G(f))
        nogr == NoGrad(f)
    IN
    CASE e.op = "grad" -> Guard(ws, nogr, put(GradField(f, a.k)))
      [] e.op = "graw" -> Guard(ws, nogr, Done(ws, [k \in 1..(2 * f.nc) |-> GradMat(f, k)]))
      [] e.op = "gfield" ->
            LET k == IF a.dir = "x" THEN 1 ELSE 3 IN
            Guard(ws, nogr, put([f EXCEPT !.v = <<GradMat(f, k), GradMat(f, k + 1)>>]))
      [] e.op = "shear" -> Guard(ws, nogr, put([f EXCEPT !.v = <<GradMat(f, 3), GradMat(f, 2)>>]))
      [] e.op = "track" -> put([f EXCEPT !.v = <<Mat(NX(f), NY(f), LAMBDA i, j : QNeg(f.v[2][i][j])), f.v[1]>>])
      [] e.op \in {"div", "cdiv"} -> Guard(ws, nogr, opt(LAMBDA g :
            Scalar(g, Mat(NX(g), NY(g), LAMBDA i, j : IF JacAt(g, i, j) = JNone THEN M
                 ELSE QAdd(JacAt(g, i, j)[1], QMul(JacAt(g, i, j)[4], UFact(g.ux, g.uy)))), UGrad(g, 1))))
      [] e.op = "vort" -> Guard(ws, nogr, opt(Vort))
      [] e.op = "stokes" -> Guard(ws, nogr, put(Stokes(f, a.w)))
      [] e.op = "local" -> Guard(ws, nogr, put(Scalar(f, LocalCrit(f, a), LocalUnit(f, a))))
      [] e.op = "lraw" -> Guard(ws, nogr, Done(ws, LocalCrit(f, a)))
      [] e.op = "kolar" -> Guard(ws, nogr, Done(ws, IF f.k = "T" THEN [n \in 1..Len(f.fs) |-> Kolar(f.fs[n])]
                                                    ELSE <<Kolar(f)>>))
      [] e.op = "ksum" -> Guard(ws, nogr, opt(LAMBDA g : Scalar(g, Kolar(g)[1], UGrad(g, 1))))
      [] e.op = "kshear" -> Guard(ws, nogr, opt(LAMBDA g : Scalar(g, Kolar(g)[2], UPow(UGrad(g, 1), 2))))
      [] e.op = "eigen" -> Guard(ws, nogr, Done(ws, Eigen(f)))
      [] e.op = "nl" -> Guard(ws, nogr, opt(LAMBDA g : Scalar(g, NLCrit(g, a), NLUnit(g, a))))
      [] e.op = "nlraw" -> Guard(ws, nogr, Done(ws, NLCrit(f, a)))
      [] e.op = "iota" -> Guard(ws, nogr, put(Scalar(f, Iota2(f, a), UNone)))
      [] e.op = "recon" -> \* of the gradients of a field a + bx + cy + dxy
            Guard(ws, nogr,
                LET mean == QMeanSeq(ValidSeq(f, 1)) IN
                put(MapCells(f, LAMBDA c, i, j, x : QSub(x, mean))))
      [] e.op = "recon2" -> \* of given fields of du/dx and du/dy, by the trapezium rule
            Guard(ws, nogr, put(Centred([f EXCEPT !.v = <<Along(f, ws[e.t])>>, !.uv = UMul(f.uv, f.ux)])))
      [] e.op = "reconv" ->
            Guard(ws, nogr, put(Centred([f EXCEPT !.nc = 2, !.v = <<Along(f, ws[e.t]), Along(ws[a.s2], ws[a.t2])>>,
                                                  !.uv = UMul(f.uv, f.ux)])))
=============================================================================
