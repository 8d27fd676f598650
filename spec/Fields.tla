------------------------------- MODULE Fields -------------------------------
(* Scalar (nc = 1) and vector (nc = 2) fields on a rectangular grid, and the *)
(* meaning of every operation on one field or on two.                        *)
(*   [k |-> "F", nc, ax, ay, v, ux, uy, uv]                                  *)
(* ax, ay: the coordinates (ascending).  v[c][i][j]: component c at          *)
(* (ax[i], ay[j]), or M in every component when the point is masked.         *)
EXTENDS Units

Mat(nx, ny, F(_, _)) ==
    TLCEval([i \in 1..nx |-> TLCEval([j \in 1..ny |-> TLCEval(F(i, j))])])
NX(f) == Len(f.ax)
NY(f) == Len(f.ay)
Masked(f, i, j) == f.v[1][i][j] = M
Valid(f, i, j) == f.v[1][i][j] # M
Cells(f) == (1..NX(f)) \X (1..NY(f))
ValidCells(f) == {c \in Cells(f) : Valid(f, c[1], c[2])}
AnyMasked(f) == \E c \in Cells(f) : Masked(f, c[1], c[2])
\* the valid cells in reading order (x outer, y inner)
CellSeq(f) ==
    LET ny == NY(f)
        all == [k \in 1..(NX(f) * ny) |-> <<((k - 1) \div ny) + 1, ((k - 1) % ny) + 1>>]
    IN  SelectSeq(all, LAMBDA c : Valid(f, c[1], c[2]))
ValidSeq(f, c) == LET cs == CellSeq(f)
                  IN  TLCEval([k \in 1..Len(cs) |-> f.v[c][cs[k][1]][cs[k][2]]])

\* what every field a user can hold must satisfy
WFField(f) ==
    /\ Ascending(f.ax) /\ Ascending(f.ay)
    /\ Len(f.v) = f.nc
    /\ \A c \in 1..f.nc :
        /\ Len(f.v[c]) = NX(f)
        /\ \A i \in 1..NX(f) :
            /\ Len(f.v[c][i]) = NY(f)
            /\ \A j \in 1..NY(f) :
                /\ f.v[c][i][j] # NAN
                /\ f.v[c][i][j] = M <=> f.v[1][i][j] = M

\* apply G(cell-tuple) to every valid cell, component-wise
MapCells(f, G(_, _, _, _)) == \* G(c, i, j, value)
    [f EXCEPT !.v = TLCEval([c \in 1..f.nc |-> Mat(NX(f), NY(f),
        LAMBDA i, j : IF f.v[c][i][j] = M THEN M ELSE G(c, i, j, f.v[c][i][j]))])]
\* mask the cells of S as well
MaskCells(f, P(_, _)) ==
    [f EXCEPT !.v = TLCEval([c \in 1..f.nc |-> Mat(NX(f), NY(f),
        LAMBDA i, j : IF P(i, j) THEN M ELSE f.v[c][i][j])])]
\* the sub-grid with the given x and y indices
SubGrid(f, ix, iy) ==
    [f EXCEPT !.ax = Pick(f.ax, ix), !.ay = Pick(f.ay, iy),
              !.v = TLCEval([c \in 1..f.nc |-> Mat(Len(ix), Len(iy),
                        LAMBDA i, j : f.v[c][ix[i]][iy[j]])])]
Span(a, b) == [i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1]

-----------------------------------------------------------------------------
(* creation *)
Transp(m) == Mat(Len(m[1]), Len(m), LAMBDA i, j : m[j][i])
\* axes as given (either order), values as given (possibly transposed, with
\* NAN cells), mask a matrix of booleans shaped as the values
Create(nc, ax, ay, v, mask, ux, uy, uv) ==
    LET tr == /\ Len(ax) = Len(v[1][1]) /\ Len(ay) = Len(v[1])
              /\ Len(ax) # Len(ay)
        v1 == IF tr THEN [c \in 1..nc |-> Transp(v[c])] ELSE v
        m1 == IF tr THEN Transp(mask) ELSE mask
        nx == Len(ax)
        ny == Len(ay)
        rx == nx > 1 /\ QLt(ax[nx], ax[1])
        ry == ny > 1 /\ QLt(ay[ny], ay[1])
        si(i) == IF rx THEN nx + 1 - i ELSE i
        sj(j) == IF ry THEN ny + 1 - j ELSE j
        bad(i, j) == m1[i][j] \/ \E c \in 1..nc : v1[c][i][j] = NAN
    IN  [k |-> "F", nc |-> nc,
         ax |-> IF rx THEN Rev(ax) ELSE ax,
         ay |-> IF ry THEN Rev(ay) ELSE ay,
         v |-> TLCEval([c \in 1..nc |-> Mat(nx, ny,
                 LAMBDA i, j : IF bad(si(i), sj(j)) THEN M
                               ELSE v1[c][si(i)][sj(j)])]),
         ux |-> ux, uy |-> uy, uv |-> uv]

Comp(f, c) == [f EXCEPT !.nc = 1, !.v = <<f.v[c]>>]
MaskField(f) == [f EXCEPT !.nc = 1,
    !.v = <<Mat(NX(f), NY(f), LAMBDA i, j : IF Masked(f, i, j) THEN One ELSE Zero)>>]
Mag2(f) == Mat(NX(f), NY(f), LAMBDA i, j :
              IF Masked(f, i, j) THEN M
              ELSE QAdd(QSq(f.v[1][i][j]), QSq(f.v[2][i][j])))

-----------------------------------------------------------------------------
(* sub-windows *)
InWin(s, lo, hi) == Idx(s, LAMBDA i : QLe(lo, s[i]) /\ QLe(s[i], hi))
CropErr(s, lo, hi) == \/ QLt(hi, lo)
                      \/ QLt(hi, s[1])
                      \/ QLt(s[Len(s)], lo)
CropVal(f, wx, wy) == SubGrid(f, InWin(f.ax, wx[1], wx[2]), InWin(f.ay, wy[1], wy[2]))
\* index windows are 0-based, inclusive, and may reach past the end
IdxWin(n, lo, hi) == Span(lo + 1, IF hi + 1 > n THEN n ELSE hi + 1)
CropInd(f, wx, wy) == SubGrid(f, IdxWin(NX(f), wx[1], wx[2]), IdxWin(NY(f), wy[1], wy[2]))
CropIndErr(w) == w[1] > w[2] \/ w[1] < 0 \/ w[2] < 0

LiveX(f) == {i \in 1..NX(f) : \E j \in 1..NY(f) : Valid(f, i, j)}
LiveY(f) == {j \in 1..NY(f) : \E i \in 1..NX(f) : Valid(f, i, j)}
SoftCrop(f) == SubGrid(f, Span(SetMin(LiveX(f)), SetMax(LiveX(f))),
                          Span(SetMin(LiveY(f)), SetMax(LiveY(f))))
NMaskRow(f, i) == Cardinality({j \in 1..NY(f) : Masked(f, i, j)})
NMaskCol(f, j) == Cardinality({i \in 1..NX(f) : Masked(f, i, j)})
RECURSIVE HardLoop(_)
HardLoop(f) ==
    IF NX(f) = 0 \/ NY(f) = 0 \/ ~AnyMasked(f) THEN f
    ELSE LET nx == NX(f)
             ny == NY(f)
             b == <<NMaskRow(f, 1), NMaskRow(f, nx), NMaskCol(f, 1), NMaskCol(f, ny)>>
             top == SetMax({b[k] : k \in 1..4})
             w == SetMin({k \in 1..4 : b[k] = top})
         IN  HardLoop(SubGrid(f,
                 CASE w = 1 -> Span(2, nx) [] w = 2 -> Span(1, nx - 1)
                   [] OTHER -> Span(1, nx),
                 CASE w = 3 -> Span(2, ny) [] w = 4 -> Span(1, ny - 1)
                   [] OTHER -> Span(1, ny)))
CropBorder(f, hard) == IF ~AnyMasked(f) THEN f
                       ELSE IF hard THEN HardLoop(SoftCrop(f)) ELSE SoftCrop(f)

-----------------------------------------------------------------------------
(* larger windows *)
ExtAxis(a, nl, nr) ==
    LET n == Len(a)
        dl == QSub(a[2], a[1])
        dr == QSub(a[n], a[n - 1])
    IN  [i \in 1..(nl + n + nr) |->
            IF i <= nl THEN QSub(a[1], QMul(R(nl - i + 1), dl))
            ELSE IF i <= nl + n THEN a[i - nl]
            ELSE QAdd(a[n], QMul(R(i - nl - n), dr))]
\* new points are masked (val = M) or take the given value
Extend(f, l, r, u, d, val) ==
    LET nx == NX(f)
        ny == NY(f)
    IN  [f EXCEPT !.ax = IF l + r = 0 THEN f.ax ELSE ExtAxis(f.ax, l, r),
                  !.ay = IF u + d = 0 THEN f.ay ELSE ExtAxis(f.ay, d, u),
                  !.v = TLCEval([c \in 1..f.nc |-> Mat(nx + l + r, ny + u + d,
                       LAMBDA i, j : IF i > l /\ i <= l + nx /\ j > d /\ j <= d + ny
                                     THEN f.v[c][i - l][j - d] ELSE val)])]
QCeil(q) == -((-q[1]) \div q[2])
QFloor(q) == q[1] \div q[2]

-----------------------------------------------------------------------------
(* rotations, by quarter turns, counter-clockwise about the origin *)
NegRev(a) == [i \in 1..Len(a) |-> QNeg(a[Len(a) + 1 - i])]
Rot90(f) ==
    LET nx == NX(f)
        ny == NY(f)
        turn(m) == Mat(ny, nx, LAMBDA i, j : m[j][ny + 1 - i])
        neg(m) == Mat(ny, nx, LAMBDA i, j : QNeg(m[i][j]))
    IN  [f EXCEPT !.ax = NegRev(f.ay), !.ay = f.ax, !.ux = f.uy, !.uy = f.ux,
                  !.v = IF f.nc = 1 THEN <<turn(f.v[1])>>
                        ELSE <<neg(turn(f.v[2])), turn(f.v[1])>>]
RECURSIVE RotN(_, _)
RotN(f, n) == IF n = 0 THEN f ELSE RotN(Rot90(f), n - 1)
Rotate(f, angle) == RotN(f, (angle \div 90) % 4)

-----------------------------------------------------------------------------
(* scaling and units.  A factor is <<q, u>>: the number q in the unit u      *)
ScaleAxis(a, q) == LET b == [i \in 1..Len(a) |-> QMul(a[i], q)]
                   IN  IF QLt(q, Zero) THEN Rev(b) ELSE b
Scale(f, sx, sy, sv) ==
    LET rx == QLt(sx[1], Zero)
        ry == QLt(sy[1], Zero)
        nx == NX(f)
        ny == NY(f)
        sg(c) == IF f.nc = 2 /\ ((c = 1 /\ rx) \/ (c = 2 /\ ry)) THEN -1 ELSE 1
    IN  [f EXCEPT !.ax = ScaleAxis(f.ax, sx[1]), !.ux = UMul(f.ux, sx[2]),
                  !.ay = ScaleAxis(f.ay, sy[1]), !.uy = UMul(f.uy, sy[2]),
                  !.uv = UMul(f.uv, sv[2]),
                  !.v = TLCEval([c \in 1..f.nc |-> Mat(nx, ny, LAMBDA i, j :
                       QMul(f.v[c][IF rx THEN nx + 1 - i ELSE i][IF ry THEN ny + 1 - j ELSE j],
                            QMul(sv[1], R(sg(c)))))])]
ScaleSeq(s, q) == [i \in 1..Len(s) |-> QMul(s[i], q)]
ChangeUnit(f, axe, u) ==
    CASE axe = "x" -> [f EXCEPT !.ax = ScaleSeq(f.ax, UFact(f.ux, u)), !.ux = u]
      [] axe = "y" -> [f EXCEPT !.ay = ScaleSeq(f.ay, UFact(f.uy, u)), !.uy = u]
      [] axe = "values" -> [MapCells(f, LAMBDA c, i, j, q : QMul(q, UFact(f.uv, u)))
                               EXCEPT !.uv = u]
UnitOf(f, axe) == CASE axe = "x" -> f.ux [] axe = "y" -> f.uy [] axe = "values" -> f.uv
Origin(f, x, y) == [f EXCEPT !.ax = [i \in 1..NX(f) |-> QSub(f.ax[i], x)],
                             !.ay = [j \in 1..NY(f) |-> QSub(f.ay[j], y)]]

-----------------------------------------------------------------------------
(* arithmetic *)
SameGrid(f, g) == f.ax = g.ax /\ f.ay = g.ay
AddErr(f, g) ==
    \/ f.nc # g.nc
    \/ ~UCompat(f.uv, g.uv) \/ ~UCompat(f.ux, g.ux) \/ ~UCompat(f.uy, g.uy)
    \/ Range1(f.ax) \cap Range1(g.ax) = {}
    \/ Range1(f.ay) \cap Range1(g.ay) = {}
\* f + s*g where the two grids share points (s = 1 or -1)
AddF(f, g, s) ==
    LET ix == Idx(f.ax, LAMBDA i : f.ax[i] \in Range1(g.ax))
        iy == Idx(f.ay, LAMBDA j : f.ay[j] \in Range1(g.ay))
        gx(i) == CHOOSE m \in 1..NX(g) : g.ax[m] = f.ax[i]
        gy(j) == CHOOSE n \in 1..NY(g) : g.ay[n] = f.ay[j]
        k == QMul(R(s), UFact(g.uv, f.uv))
        h == SubGrid(f, ix, iy)
    IN  [h EXCEPT !.v = TLCEval([c \in 1..f.nc |-> Mat(Len(ix), Len(iy), LAMBDA i, j :
            QAdd(h.v[c][i][j], QMul(k, g.v[c][gx(ix[i])][gy(iy[j])])))])]
AddQ(f, qs) == MapCells(f, LAMBDA c, i, j, q : QAdd(q, qs[c]))
AddArr(f, a) == MapCells(f, LAMBDA c, i, j, q : QAdd(q, a[i][j]))
Neg(f) == MapCells(f, LAMBDA c, i, j, q : QNeg(q))
Abs(f) == MapCells(f, LAMBDA c, i, j, q : QAbs(q))
MulQ(f, q0, u) == [MapCells(f, LAMBDA c, i, j, q : QMul(q, q0))
                     EXCEPT !.uv = UMul(f.uv, u)]
MulArr(f, a) == MapCells(f, LAMBDA c, i, j, q : QMul(q, a[i][j]))
DivArr(f, a) == MapCells(MaskCells(f, LAMBDA i, j : a[i][j] = Zero),
                         LAMBDA c, i, j, q : QDiv(q, a[i][j]))
MulErr(f, g) == ~SameGrid(f, g) \/ f.ux # g.ux \/ f.uy # g.uy \/ g.nc # 1
\* g is scalar, f scalar or vector
MulF(f, g) == [MapCells(MaskCells(f, LAMBDA i, j : Masked(g, i, j)),
                        LAMBDA c, i, j, q : QMul(q, g.v[1][i][j]))
                 EXCEPT !.uv = UMul(f.uv, g.uv)]
DivF(f, g) == [MapCells(MaskCells(f, LAMBDA i, j : g.v[1][i][j] \in {M, Zero}),
                        LAMBDA c, i, j, q : QDiv(q, g.v[1][i][j]))
                 EXCEPT !.uv = UDivU(f.uv, g.uv)]
MaskZeros(f) == MaskCells(f, LAMBDA i, j : f.v[1][i][j] = Zero)
RDivQ(f, q0) == [MapCells(MaskZeros(f), LAMBDA c, i, j, q : QDiv(q0, q)) EXCEPT !.uv = UInv(f.uv)]
RDivArr(f, a) == [MapCells(MaskZeros(f), LAMBDA c, i, j, q : QDiv(a[i][j], q)) EXCEPT !.uv = UInv(f.uv)]
PowF(f, n) == [MapCells(f, LAMBDA c, i, j, q : QPow(q, n)) EXCEPT !.uv = UPow(f.uv, n)]

-----------------------------------------------------------------------------
(* reading *)
\* 0-based indices of the grid points bracketing a coordinate
Bracket(a, q) ==
    LET up == SetMin({i \in 1..Len(a) : QLe(q, a[i])})
    IN  IF a[up] = q THEN <<up - 1, up - 1>> ELSE <<up - 2, up - 1>>
OutOf(a, q) == QLt(q, a[1]) \/ QLt(a[Len(a)], q)
Nearest(a, q) == \* the upper one when equidistant
    LET b == Bracket(a, q)
    IN  IF QLt(QAbs(QSub(a[b[1] + 1], q)), QAbs(QSub(a[b[2] + 1], q))) THEN b[1] ELSE b[2]
Decimal(a, q) ==
    LET b == Bracket(a, q)
    IN  IF b[1] = b[2] THEN R(b[1])
        ELSE QAdd(R(b[1]), QDiv(QSub(q, a[b[1] + 1]), QSub(a[b[2] + 1], a[b[1] + 1])))
Lerp(x1, v1, x2, v2, x) ==
    IF v1 = M \/ v2 = M THEN M
    ELSE IF x1 = x2 THEN v1
    ELSE QAdd(v1, QMul(QSub(v2, v1), QDiv(QSub(x, x1), QSub(x2, x1))))
\* the admissible values of component c at (x, y): one value on the grid
\* lines, and one of the two linear triangulations inside a cell
ValueAt(f, c, x, y) ==
    LET bx == Bracket(f.ax, x)
        by == Bracket(f.ay, y)
        x1 == f.ax[bx[1] + 1]
        x2 == f.ax[bx[2] + 1]
        y1 == f.ay[by[1] + 1]
        y2 == f.ay[by[2] + 1]
        w(i, j) == f.v[c][i + 1][j + 1]
        q11 == w(bx[1], by[1])
        q12 == w(bx[1], by[2])
        q21 == w(bx[2], by[1])
        q22 == w(bx[2], by[2])
        s == QDiv(QSub(x, x1), QSub(x2, x1))
        t == QDiv(QSub(y, y1), QSub(y2, y1))
    IN  IF M \in {q11, q12, q21, q22} THEN {M}
        ELSE IF bx[1] = bx[2] THEN {Lerp(y1, q11, y2, q12, y)}
        ELSE IF by[1] = by[2] THEN {Lerp(x1, q11, x2, q21, x)}
        ELSE { \* diagonal 11-22
               IF QLe(t, s)
               THEN QAdd(q11, QAdd(QMul(s, QSub(q21, q11)), QMul(t, QSub(q22, q21))))
               ELSE QAdd(q11, QAdd(QMul(t, QSub(q12, q11)), QMul(s, QSub(q22, q12)))),
               \* diagonal 12-21
               IF QLe(QAdd(s, t), One)
               THEN QAdd(q11, QAdd(QMul(s, QSub(q21, q11)), QMul(t, QSub(q12, q11))))
               ELSE QAdd(q22, QAdd(QMul(QSub(One, s), QSub(q12, q22)),
                                   QMul(QSub(One, t), QSub(q21, q22)))) }

\* points (0-based indices) within a radius of a centre given in index units
Around(f, cx, cy, rad) ==
    {c \in (0..(NX(f) - 1)) \X (0..(NY(f) - 1)) :
        QLe(QDist2(<<R(c[1]), R(c[2])>>, <<cx, cy>>), QSq(rad))}

\* the line of cells crossing the axis `dir` at 1-based index i
LineAt(f, c, dir, i) ==
    IF dir = "x" THEN f.v[c][i] ELSE [m \in 1..NX(f) |-> f.v[c][m][i]]
AlongAxis(f, dir) == IF dir = "x" THEN f.ay ELSE f.ax
CrossAxis(f, dir) == IF dir = "x" THEN f.ax ELSE f.ay
AlongUnit(f, dir) == IF dir = "x" THEN f.uy ELSE f.ux
\* mean over the cells of an index set; masked as soon as one of them is
BandMean(f, c, dir, idx) ==
    [m \in 1..Len(AlongAxis(f, dir)) |->
        LET s == [k \in 1..Len(idx) |-> LineAt(f, c, dir, idx[k])[m]]
        IN  IF M \in Range1(s) THEN M ELSE QMeanSeq(s)]
LineLerp(f, c, dir, q) ==
    LET a == CrossAxis(f, dir)
        b == Bracket(a, q)
        l1 == LineAt(f, c, dir, b[1] + 1)
        l2 == LineAt(f, c, dir, b[2] + 1)
    IN  [m \in 1..Len(l1) |-> Lerp(a[b[1] + 1], l1[m], a[b[2] + 1], l2[m], q)]
Prof(x, y, ux, uy) == [k |-> "P", x |-> x, y |-> y, ux |-> ux, uy |-> uy]
Trapz(x, y) == QSumSeq([i \in 1..(Len(x) - 1) |->
                  QMul(QSub(x[i + 1], x[i]), QHalf(QAdd(y[i], y[i + 1])))])

-----------------------------------------------------------------------------
(* resolution *)
Blocks(n, fact) == n \div fact
BlockCentre(a, fact, b) ==
    LET o == (b - 1) * fact
    IN  IF fact % 2 = 1 THEN a[o + (fact + 1) \div 2]
        ELSE QHalf(QAdd(a[o + fact \div 2], a[o + fact \div 2 + 1]))
ReduceSp(f, fact) ==
    LET nbx == Blocks(NX(f), fact)
        nby == Blocks(NY(f), fact)
        blk(b) == Span((b - 1) * fact + 1, b * fact)
        val(c, bi, bj) ==
            LET s == SelectSeq([k \in 1..(fact * fact) |->
                        f.v[c][(bi - 1) * fact + ((k - 1) \div fact) + 1]
                              [(bj - 1) * fact + ((k - 1) % fact) + 1]],
                        LAMBDA q : q # M)
            IN  IF s = <<>> THEN M ELSE QMeanSeq(s)
    IN  [f EXCEPT !.ax = [b \in 1..nbx |-> BlockCentre(f.ax, fact, b)],
                  !.ay = [b \in 1..nby |-> BlockCentre(f.ay, fact, b)],
                  !.v = TLCEval([c \in 1..f.nc |-> Mat(nbx, nby, LAMBDA i, j : val(c, i, j))])]

-----------------------------------------------------------------------------
(* filling and smoothing *)
FillValue(f, vals) == [f EXCEPT !.v = TLCEval([c \in 1..f.nc |-> Mat(NX(f), NY(f),
    LAMBDA i, j : IF f.v[c][i][j] = M THEN vals[c] ELSE f.v[c][i][j])])]
\* relation: g is f filled from the values around
SameFrame(f, g) == /\ g.k = "F" /\ g.nc = f.nc
                   /\ g.ax = f.ax /\ g.ay = f.ay
                   /\ g.ux = f.ux /\ g.uy = f.uy /\ g.uv = f.uv
Pos(f, c) == <<f.ax[c[1]], f.ay[c[2]]>>
NearestVals(f, c, i, j) ==
    LET vc == ValidCells(f)
        d(p) == QDist2(Pos(f, p), Pos(f, <<i, j>>))
        near == {p \in vc : \A q \in vc : QLe(d(p), d(q))}
    IN  {f.v[c][p[1]][p[2]] : p \in near}
KeepsValid(f, g) == \A p \in Cells(f), c \in 1..f.nc :
    IF Valid(f, p[1], p[2]) THEN g.v[c][p[1]][p[2]] = f.v[c][p[1]][p[2]]
    ELSE IsNum(g.v[c][p[1]][p[2]])
FillNearestOK(f, g) ==
    /\ SameFrame(f, g) /\ WFField(g) /\ KeepsValid(f, g)
    /\ \A p \in Cells(f), c \in 1..f.nc : Masked(f, p[1], p[2]) =>
          g.v[c][p[1]][p[2]] \in NearestVals(f, c, p[1], p[2])
Bounds(f, c, g) == LET s == ValidSeq(f, c) IN
    \A p \in Cells(f) : /\ QLe(QMinSeq(s), g.v[c][p[1]][p[2]])
                        /\ QLe(g.v[c][p[1]][p[2]], QMaxSeq(s))
\* aff = <<a, b, c>> per component: the valid values are a + b x + c y
AffAt(f, aff, i, j) == QAdd(aff[1], QAdd(QMul(aff[2], f.ax[i]), QMul(aff[3], f.ay[j])))
Interior(f, i, j) == \* valid cells on both sides along x, or along y
    \/ /\ \E m \in 1..(i - 1) : Valid(f, m, j)
       /\ \E m \in (i + 1)..NX(f) : Valid(f, m, j)
    \/ /\ \E n \in 1..(j - 1) : Valid(f, i, n)
       /\ \E n \in (j + 1)..NY(f) : Valid(f, i, n)
FillLinearOK(f, g, aff) ==
    /\ SameFrame(f, g) /\ WFField(g) /\ KeepsValid(f, g)
    /\ \A c \in 1..f.nc :
        /\ Bounds(f, c, g)
        /\ aff # <<>> => \A p \in Cells(f) :
              (Masked(f, p[1], p[2]) /\ Interior(f, p[1], p[2])) =>
                  g.v[c][p[1]][p[2]] = AffAt(f, aff[c], p[1], p[2])
\* index with half-sample reflection at the borders (period 2n)
Refl(i, n) == LET m == (i - 1) % (2 * n) IN IF m < n THEN m + 1 ELSE 2 * n - m
\* uniform smoothing on a window of size w (window centred, left-biased if even)
Uniform(f, w) ==
    LET nx == NX(f)
        ny == NY(f)
        lo == w \div 2
    IN  [f EXCEPT !.v = TLCEval([c \in 1..f.nc |-> Mat(nx, ny, LAMBDA i, j :
            QDiv(QSumSeq([k \in 1..(w * w) |->
                f.v[c][Refl(i - lo + ((k - 1) \div w), nx)]
                      [Refl(j - lo + ((k - 1) % w), ny)]]), R(w * w)))])]
\* relation: any smoothing keeps the frame, the bounds, and the constants
SmoothOK(f, g) ==
    /\ SameFrame(f, g) /\ WFField(g)
    /\ \A c \in 1..f.nc : \A p \in Cells(f) : g.v[c][p[1]][p[2]] # M
    /\ \A c \in 1..f.nc : LET s == ValidSeq(f, c) IN
         (\A k \in 1..Len(s) : s[k] = s[1]) =>
             \A p \in Cells(f) : g.v[c][p[1]][p[2]] = s[1]

-----------------------------------------------------------------------------
(* mirroring of a field without masked points about x = pos (or y = pos);    *)
(* the reflected values are multiplied by coef[c]                            *)
MirrorX(f, pos, n0, coef) == \* n0 = number of lines to mirror, 0 = all
    LET nx0 == NX(f)
        mid == QHalf(QAdd(f.ax[1], f.ax[nx0]))
        dlt == QSub(f.ax[2], f.ax[1])
        inside == QLe(f.ax[1], pos) /\ QLe(pos, f.ax[nx0])
        left == IF inside THEN QLt(pos, mid) ELSE QLt(pos, f.ax[1])
        f1 == IF ~inside THEN f
              ELSE IF left THEN SubGrid(f, InWin(f.ax, pos, f.ax[nx0]), Span(1, NY(f)))
              ELSE SubGrid(f, InWin(f.ax, f.ax[1], pos), Span(1, NY(f)))
        n1 == NX(f1)
        border == IF left THEN f1.ax[1] ELSE f1.ax[n1]
        gap == QDiv(QAbs(QSub(pos, border)), dlt)
        num == IF n0 = 0 \/ n0 > nx0 THEN nx0 - 1 ELSE n0
        add == QCeil(QAdd(R(num), QMul(R(2), gap))) - 1
        g == IF left THEN Extend(f1, add, 0, 0, 0, M) ELSE Extend(f1, 0, add, 0, 0, M)
        new(i) == IF left THEN i <= add ELSE i > n1
        mir(i) == QSub(QMul(R(2), pos), g.ax[i])
    IN  [g EXCEPT !.v = TLCEval([c \in 1..f.nc |-> Mat(NX(g), NY(g), LAMBDA i, j :
            IF ~new(i) THEN g.v[c][i][j]
            ELSE IF OutOf(f1.ax, mir(i)) THEN M
            ELSE QMul(coef[c], CHOOSE q \in ValueAt(f1, c, mir(i), f1.ay[j]) : TRUE))])]
SwapXY(f) == [f EXCEPT !.ax = f.ay, !.ay = f.ax, !.ux = f.uy, !.uy = f.ux,
                       !.v = TLCEval([c \in 1..f.nc |-> Transp(f.v[c])])]
Mirror(f, dir, pos, n0, coef) ==
    IF dir = "x" THEN MirrorX(f, pos, n0, coef)
    ELSE SwapXY(MirrorX(SwapXY(f), pos, n0, coef))

\* bilinear resampling on an evenly spaced grid
EvenAxis(a, res) ==
    LET n == Len(a)
        ds == {QSub(a[i + 1], a[i]) : i \in 1..(n - 1)}
        dmin == CHOOSE d \in ds : \A e \in ds : QLe(d, e)
        num == QFloor(QDiv(QMul(QSub(a[n], a[1]), res), dmin))
    IN  IF num < 2 THEN <<a[1]>>
        ELSE [i \in 1..num |-> QAdd(a[1], QMul(<<i - 1, 1>>, QDiv(QSub(a[n], a[1]), R(num - 1))))]
Bilin(f, c, x, y) ==
    LET bx == Bracket(f.ax, x)
        by == Bracket(f.ay, y)
        row(j) == Lerp(f.ax[bx[1] + 1], f.v[c][bx[1] + 1][j + 1],
                       f.ax[bx[2] + 1], f.v[c][bx[2] + 1][j + 1], x)
    IN  Lerp(f.ay[by[1] + 1], row(by[1]), f.ay[by[2] + 1], row(by[2]), y)
Even(f, res) ==
    LET nax == EvenAxis(f.ax, res)
        nay == EvenAxis(f.ay, res)
    IN  [f EXCEPT !.ax = nax, !.ay = nay,
            !.v = TLCEval([c \in 1..f.nc |-> Mat(Len(nax), Len(nay),
                      LAMBDA i, j : Bilin(f, c, nax[i], nay[j]))])]
=============================================================================
