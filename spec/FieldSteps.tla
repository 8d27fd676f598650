----------------------------- MODULE FieldSteps -----------------------------
(* API calls on ScalarField and VectorField objects. *)
EXTENDS Outcome

FStep(ws, e, o) ==
    LET a == e.a
        f == ws[e.s]
        d == Dst(e)
        put(g) == Done(Put(ws, d, g), <<>>)
        win(w, ax) == IF w = <<>> THEN <<ax[1], ax[Len(ax)]>> ELSE w
        iwin(w, ax) == IF w = <<>> THEN <<0, Len(ax)>> ELSE w
    IN
    CASE e.op = "mk" ->
        Done(Put(ws, e.d, Create(a.nc, a.ax, a.ay, a.v, a.mask, a.ux, a.uy, a.uv)), <<>>)
      [] e.op = "copy" -> put(f)
      \* ---- windows
      [] e.op = "crop" ->
        IF a.mode = "ind"
        THEN LET wx == iwin(a.wx, f.ax)
                 wy == iwin(a.wy, f.ay)
             IN  Guard(ws, CropIndErr(wx) \/ CropIndErr(wy), put(CropInd(f, wx, wy)))
        ELSE LET wx == win(a.wx, f.ax)
                 wy == win(a.wy, f.ay)
             IN  Guard(ws, CropErr(f.ax, wx[1], wx[2]) \/ CropErr(f.ay, wy[1], wy[2]),
                       put(CropVal(f, wx, wy)))
      [] e.op = "cropb" -> Guard(ws, ValidCells(f) = {}, put(CropBorder(f, a.hard)))
      [] e.op = "extend" ->
        LET n(q, ax) == IF a.ind THEN q[1] ELSE QCeil(QDiv(q, QSub(ax[2], ax[1])))
        IN  Guard(ws, n(a.l, f.ax) < 0 \/ n(a.r, f.ax) < 0 \/ n(a.u, f.ay) < 0 \/ n(a.d, f.ay) < 0,
                  put(Extend(f, n(a.l, f.ax), n(a.r, f.ax), n(a.u, f.ay), n(a.d, f.ay), a.val)))
      [] e.op = "rotate" -> Guard(ws, a.angle % 90 # 0, put(Rotate(f, a.angle)))
      [] e.op = "mirror" -> put(Mirror(f, a.dir, a.pos, a.n, a.coef))
      [] e.op = "mirrorv" -> put(FillValue(Mirror(f, a.dir, a.pos, a.n, a.coef), a.val))
      \* ---- scales and units
      [] e.op = "scale" -> Phys(put(Scale(f, a.sx, a.sy, a.sv)))
      [] e.op = "unit" -> Guard(ws, ~UCompat(UnitOf(f, a.axe), a.u),
                                Done(Put(ws, e.s, ChangeUnit(f, a.axe, a.u)), <<>>))
      [] e.op = "origin" -> Done(Put(ws, e.s, Origin(f, a.x, a.y)), <<>>)
      \* ---- arithmetic
      [] e.op = "add" ->
        LET g == ws[e.t]
        IN  Guard(ws, AddErr(f, g), put(AddF(f, g, IF a.sub THEN -1 ELSE 1)))
      [] e.op = "addq" -> \* plus a number, a quantity (unit a.u), or a vector
        Guard(ws, a.kind = "unum" /\ ~UCompat(f.uv, a.u),
              LET k == IF a.kind = "unum" THEN UFact(a.u, f.uv) ELSE One
              IN  put(AddQ(f, [c \in 1..f.nc |-> QMul(k, a.q[IF Len(a.q) = 1 THEN 1 ELSE c])])))
      [] e.op = "rsubq" -> put(AddQ(Neg(f), [c \in 1..f.nc |-> a.q[1]]))
      [] e.op = "adda" -> put(AddArr(f, a.arr))
      [] e.op = "neg" -> put(Neg(f))
      [] e.op = "abs" -> put(Abs(f))
      [] e.op = "mulq" -> Phys(put(MulQ(f, a.q[1], a.u)))
      [] e.op = "divq" -> Phys(put(MulQ(f, QInv(a.q[1]), UInv(a.u))))
      [] e.op = "rdivq" -> Phys(put(RDivQ(f, a.q[1])))
      [] e.op = "rdiva" -> Phys(put(RDivArr(f, a.arr)))
      [] e.op = "mula" -> put(MulArr(f, a.arr))
      [] e.op = "diva" -> put(DivArr(f, a.arr))
      [] e.op = "mulf" -> LET g == ws[e.t]
                          IN  Guard(ws, MulErr(f, g), Phys(put(MulF(f, g))))
      [] e.op = "divf" -> LET g == ws[e.t]
                          IN  Guard(ws, MulErr(f, g), Phys(put(DivF(f, g))))
      [] e.op = "pow" -> Phys(put(PowF(f, a.n)))
      [] e.op = "eq" -> Done(ws, <<f = ws[e.t]>>)
      \* ---- setters
      [] e.op = "setmask" ->
        Done(Put(ws, e.s, MaskCells(f, LAMBDA i, j : a.mask[i][j])), <<>>)
      [] e.op = "setvals" ->
        Done(Put(ws, e.s, [f EXCEPT !.v = a.v]), <<>>)
      [] e.op = "setunit" ->
        Done(Put(ws, e.s, CASE a.axe = "x" -> [f EXCEPT !.ux = a.u]
                            [] a.axe = "y" -> [f EXCEPT !.uy = a.u]
                            [] a.axe = "values" -> [f EXCEPT !.uv = a.u]), <<>>)
      [] e.op = "setax" ->
        Done(Put(ws, e.s, IF a.axe = "x" THEN [f EXCEPT !.ax = a.ax] ELSE [f EXCEPT !.ay = a.ax]), <<>>)
      \* ---- derived objects
      [] e.op = "comp" -> Done(Put(ws, e.d, Comp(f, a.c)), <<>>)
      [] e.op = "maskf" -> Done(Put(ws, e.d, MaskField(f)), <<>>)
      [] e.op = "mag2" -> Done(ws, <<Mag2(f)>> \o (IF a.sf THEN <<f.ax, f.ay, f.ux, f.uy, f.uv>> ELSE <<>>))
      [] e.op = "theta" ->  \* in units of pi/4, for vectors along the eight directions
        LET dirs(x, y) == CASE x > 0 /\ y = 0 -> 0 [] x > 0 /\ y > 0 -> 1
                            [] x = 0 /\ y > 0 -> 2 [] x < 0 /\ y > 0 -> 3
                            [] x < 0 /\ y = 0 -> 4 [] x < 0 /\ y < 0 -> 5
                            [] x = 0 /\ y < 0 -> 6 [] x > 0 /\ y < 0 -> 7
                            [] OTHER -> 0
        IN  Done(ws, <<Mat(NX(f), NY(f), LAMBDA i, j :
                IF Masked(f, i, j) THEN M
                ELSE R(dirs(Sgn(f.v[1][i][j]), Sgn(f.v[2][i][j]))))>>
                \o (IF a.sf THEN <<f.ax, f.ay, f.ux, f.uy>> ELSE <<>>))
      \* ---- statistics over the valid points only
      [] e.op = "stat" ->
        Guard(ws, ValidCells(f) = {},
          LET s == IF f.nc = 1 THEN ValidSeq(f, 1)
                   ELSE LET cs == CellSeq(f)
                            m == Mag2(f)
                        IN  [k \in 1..Len(cs) |-> m[cs[k][1]][cs[k][2]]]
          IN  Done(ws, <<CASE a.kind = "min" -> QMinSeq(s)
                           [] a.kind = "max" -> QMaxSeq(s)
                           [] a.kind = "mean" -> QMeanSeq(s)
                           [] a.kind = "median" -> LET t == SortSeq(s, QLt)
                                                       n == Len(t)
                                                   IN  QHalf(QAdd(t[(n + 1) \div 2], t[n \div 2 + 1]))>>))
      [] e.op = "norm" -> \* returned to the power a.n
          LET s == IF f.nc = 1 THEN ValidSeq(f, 1) ELSE ValidSeq(f, 1) \o ValidSeq(f, 2)
              t == QSumAbsPow(s, a.n)
          IN  Done(ws, <<IF a.perpoint
                         THEN QDiv(t, QPow(R(Cardinality(ValidCells(f))), a.n)) ELSE t>>)
      [] e.op = "iter" ->
          LET cs == CellSeq(f)
          IN  Done(ws, [k \in 1..Len(cs) |->
                 LET i == cs[k][1]
                     j == cs[k][2]
                 IN  <<R(i - 1), R(j - 1), f.ax[i], f.ay[j]>>
                     \o [c \in 1..f.nc |-> f.v[c][i][j]]])
      [] e.op = "scatter" ->
          LET cs == SelectSeq(CellSeq(f), LAMBDA c : a.mask = <<>> \/ ~a.mask[c[1]][c[2]])
          IN  Done(Put(ws, e.d, [k |-> "S",
                 xy |-> [n \in 1..Len(cs) |-> <<f.ax[cs[n][1]], f.ay[cs[n][2]]>>],
                 v |-> [n \in 1..Len(cs) |-> f.v[1][cs[n][1]][cs[n][2]]],
                 ux |-> f.ux, uy |-> f.uy, uv |-> f.uv]), <<>>)
      [] e.op = "intline" ->
          LET ids == InWin(CrossAxis(f, a.dir), a.w[1], a.w[2])
              p == BandMean(f, 1, a.dir, ids)
          IN  Guard(ws, M \in Range1(p), Phys(Done(ws, <<Trapz(AlongAxis(f, a.dir), p),
                                                   UMul(f.uv, AlongUnit(f, a.dir))>>)))
      [] e.op = "intsurf" ->
          LET g == CropVal(f, win(a.wx, f.ax), win(a.wy, f.ay))
              n == NX(g) * NY(g)
          IN  Guard(ws, AnyMasked(g), Phys(Done(ws,
                 <<QMul(QDiv(QSumSeq(ValidSeq(g, 1)), R(n)),
                        QMul(QSub(g.ax[NX(g)], g.ax[1]), QSub(g.ay[NY(g)], g.ay[1]))),
                   UMul(f.uv, UMul(f.ux, f.uy))>>)))
      \* ---- lookups
      [] e.op = "getv" ->
          IF a.ind
          THEN Guard(ws, a.x[1] < 0 \/ a.y[1] < 0 \/ a.x[1] >= NX(f) \/ a.y[1] >= NY(f),
                     Done(ws, [c \in 1..f.nc |-> f.v[c][a.x[1] + 1][a.y[1] + 1]]))
          ELSE Guard(ws, OutOf(f.ax, a.x) \/ OutOf(f.ay, a.y),
                     Rel(ws, /\ Len(e.ret) = f.nc
                             /\ \A c \in 1..f.nc : e.ret[c] \in ValueAt(f, c, a.x, a.y),
                         e.ret))
      [] e.op = "ionaxe" ->
          LET ax == IF a.axis = 1 THEN f.ax ELSE f.ay
          IN  Guard(ws, OutOf(ax, a.q),
                    Done(ws, CASE a.kind = "bounds" -> LET b == Bracket(ax, a.q)
                                                       IN  <<R(b[1]), R(b[2])>>
                               [] a.kind = "nearest" -> <<R(Nearest(ax, a.q))>>
                               [] a.kind = "decimal" -> <<Decimal(ax, a.q)>>))
      [] e.op = "around" ->
          LET dlt == QHalf(QAdd(QSub(f.ax[2], f.ax[1]), QSub(f.ay[2], f.ay[1])))
              rad == IF a.ind THEN a.rad ELSE QDiv(a.rad, dlt)
              cx == IF a.ind THEN a.x ELSE Decimal(f.ax, a.x)
              cy == IF a.ind THEN a.y ELSE Decimal(f.ay, a.y)
          IN  Guard(ws, QLe(a.rad, Zero) \/ (~a.ind /\ (OutOf(f.ax, a.x) \/ OutOf(f.ay, a.y))),
                    LET s == Around(f, cx, cy, rad)
                        in == SelectSeq(e.ret, LAMBDA p : /\ p[1][1] \in 0..(NX(f) - 1)
                                                          /\ p[2][1] \in 0..(NY(f) - 1))
                    IN  \* positions out of the grid may be listed too
                        Rel(ws, /\ {<<in[k][1][1], in[k][2][1]>> : k \in 1..Len(in)} = s
                                /\ Len(in) = Cardinality(s), e.ret))
      [] e.op = "profile" ->
          LET ax == CrossAxis(f, a.dir)
              along == AlongAxis(f, a.dir)
              mk(y) == Done(Put(ws, e.d, Prof(along, y, AlongUnit(f, a.dir), f.uv)), <<>>)
          IN (CASE a.how = "band" -> \* an interval of coordinates
                     mk(BandMean(f, a.c, a.dir, InWin(ax, a.w[1], a.w[2])))
                [] a.how = "all" -> mk(BandMean(f, a.c, a.dir, Span(1, Len(ax))))
                [] a.how = "iband" -> \* indices, upper end excluded
                     Guard(ws, a.w[2][1] >= Len(ax),
                           mk(BandMean(f, a.c, a.dir, Span(a.w[1][1] + 1, a.w[2][1]))))
                [] a.how = "ind" ->
                     Guard(ws, a.w[1][1] < 0 \/ a.w[1][1] >= Len(ax),
                           mk(LineAt(f, a.c, a.dir, a.w[1][1] + 1)))
                [] a.how = "linear" ->
                     Guard(ws, OutOf(ax, a.w[1]), mk(LineLerp(f, a.c, a.dir, a.w[1])))
                [] a.how = "nearest" ->
                     Guard(ws, OutOf(ax, a.w[1]),
                           mk(LineAt(f, a.c, a.dir, Nearest(ax, a.w[1]) + 1))))
      \* ---- filling, smoothing, resolution
      [] e.op = "fillv" -> put(FillValue(IF a.crop THEN CropBorder(f, FALSE) ELSE f, a.val))
      [] e.op = "filln" -> LET g == IF a.crop THEN CropBorder(f, FALSE) ELSE f
                           IN  Rel(Put(ws, d, o[d]), IF AnyMasked(g) THEN FillNearestOK(g, o[d]) ELSE o[d] = g, <<>>)
      [] e.op = "filll" -> LET g == IF a.crop THEN CropBorder(f, FALSE) ELSE f
                           IN  Rel(Put(ws, d, o[d]), IF AnyMasked(g) THEN FillLinearOK(g, o[d], a.aff) ELSE o[d] = g, <<>>)
      [] e.op = "smooth" -> IF AnyMasked(f)
                            THEN Rel(Put(ws, d, o[d]), SmoothOK(f, o[d]), <<>>)
                            ELSE put(Uniform(f, a.size))
      [] e.op = "reduce" -> Guard(ws, a.fact < 1, put(ReduceSp(f, a.fact)))
      [] e.op = "even" -> Done(Put(ws, e.s, Even(f, a.res)), <<>>)
=============================================================================
