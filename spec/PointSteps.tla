----------------------------- MODULE PointSteps -----------------------------
(* Sets of points, and sets of points at successive times.                   *)
(*   [k |-> "S", xy, v, ux, uy, uv]   v[i] the value of point i, or <<>>     *)
(*   [k |-> "O", ..., or]             or[i] the directions at point i        *)
(*   [k |-> "TP", ts, ut, ux, uy, ps] ps[n] the points at time ts[n]         *)
EXTENDS ProfileSteps

SN(p) == Len(p.xy)
HasV(p) == p.v # <<>>
WFPts(p) == /\ Len(p.v) \in {0, SN(p)}
            /\ p.k = "O" => Len(p.or) = SN(p)
SX(p) == [i \in 1..SN(p) |-> p.xy[i][1]]
SY(p) == [i \in 1..SN(p) |-> p.xy[i][2]]
XY(x, y) == [i \in 1..Len(x) |-> <<x[i], y[i]>>]
SCoord(p, ref) == CASE ref = "x" -> SX(p) [] ref = "y" -> SY(p) [] ref = "v" -> p.v
SUnit(p, ref) == CASE ref = "x" -> p.ux [] ref = "y" -> p.uy [] ref = "v" -> p.uv
\* the points of indices ids, in that order
SSub(p, ids) ==
    LET q == [p EXCEPT !.xy = Pick(p.xy, ids), !.v = IF HasV(p) THEN Pick(p.v, ids) ELSE <<>>]
    IN  IF p.k = "O" THEN [q EXCEPT !.or = Pick(p.or, ids)] ELSE q
SKeep(p, P(_)) == SSub(p, SelectSeq(Span(1, SN(p)), P))
SMapXY(p, G(_, _)) == [p EXCEPT !.xy = TLCEval([i \in 1..SN(p) |-> G(p.xy[i][1], p.xy[i][2])])]
SMapOr(p, G(_, _)) == IF p.k # "O" THEN p
    ELSE [p EXCEPT !.or = TLCEval([i \in 1..Len(p.or) |-> [j \in 1..Len(p.or[i]) |-> G(p.or[i][j][1], p.or[i][j][2])]])]
InI(q, w) == w = <<>> \/ (QLe(w[1], q) /\ QLe(q, w[2]))
InOpen(q, w) == w = <<>> \/ (QLt(w[1], q) /\ QLt(q, w[2]))
SCrop(p, wx, wy, wv) ==
    SKeep(p, LAMBDA i : /\ InI(p.xy[i][1], wx) /\ InI(p.xy[i][2], wy)
                        /\ ~HasV(p) \/ InI(p.v[i], wv))
SCut(p, wx, wy) == SKeep(p, LAMBDA i : ~(InOpen(p.xy[i][1], wx) /\ InOpen(p.xy[i][2], wy)))
SScale(p, sx, sy, sv) ==
    [p EXCEPT !.xy = TLCEval([i \in 1..SN(p) |-> <<QMul(p.xy[i][1], sx[1]), QMul(p.xy[i][2], sy[1])>>]),
              !.v = ScaleSeq(p.v, sv[1]), !.ux = UMul(p.ux, sx[2]), !.uy = UMul(p.uy, sy[2]), !.uv = UMul(p.uv, sv[2])]
SToUnit(p, axe, u) ==
    CASE axe = "x" -> [SMapXY(p, LAMBDA x, y : <<QMul(x, UFact(p.ux, u)), y>>) EXCEPT !.ux = u]
      [] axe = "y" -> [SMapXY(p, LAMBDA x, y : <<x, QMul(y, UFact(p.uy, u))>>) EXCEPT !.uy = u]
      [] axe = "v" -> [p EXCEPT !.uv = u, !.v = ScaleSeq(p.v, UFact(p.uv, u))]
\* one after the other, in the units of the first
SCat(p, r) ==
    LET q == [p EXCEPT !.xy = p.xy \o SMapXY(r, LAMBDA x, y : <<QMul(x, UFact(r.ux, p.ux)), QMul(y, UFact(r.uy, p.uy))>>).xy,
                       !.v = p.v \o ScaleSeq(r.v, UFact(r.uv, p.uv))]
    IN  IF p.k = "O" THEN [q EXCEPT !.or = p.or \o r.or] ELSE q
SCatErr(p, r) == \/ ~UCompat(p.ux, r.ux) \/ ~UCompat(p.uy, r.uy) \/ ~UCompat(p.uv, r.uv)
                 \/ HasV(p) # HasV(r) \/ (p.k = "O" /\ r.k # "O")
SRank(s) == \* the indices by increasing s, all distinct
    [k \in 1..Len(s) |-> CHOOSE i \in 1..Len(s) : Cardinality({j \in 1..Len(s) : QLt(s[j], s[i])}) = k - 1]
SSort(p, ref) == SSub(p, SRank(SCoord(p, ref)))
IsNanPt(p, i) == p.xy[i][1] = NAN \/ p.xy[i][2] = NAN \/ (HasV(p) /\ p.v[i] = NAN)
\* one point per value
SDoub(p, how) ==
    LET vals == TLCEval(Range1(p.v))
        vs == TLCEval(CHOOSE s \in [1..Cardinality(vals) -> vals] : Ascending(s))
        f(s) == CASE how = "average" -> QMeanSeq(s) [] how = "min" -> QMinSeq(s) [] how = "max" -> QMaxSeq(s)
        grp(s, v) == Pick(s, Idx(p.v, LAMBDA i : p.v[i] = v))
    IN  [p EXCEPT !.v = vs, !.xy = TLCEval([k \in 1..Len(vs) |-> <<f(grp(SX(p), vs[k])), f(grp(SY(p), vs[k]))>>])]
SAugSeq(s, fact) == LET n == Len(s) IN
    TLCEval([k \in 1..((n - 1) * fact + 1) |->
        LET i == (k - 1) \div fact
            r == (k - 1) % fact
        IN  IF r = 0 THEN s[i + 1] ELSE QAdd(s[i + 1], QMul(<<r, fact>>, QSub(s[i + 2], s[i + 1])))])
SAug(p, fact) == [p EXCEPT !.xy = XY(SAugSeq(SX(p), fact), SAugSeq(SY(p), fact)),
                           !.v = IF HasV(p) THEN SAugSeq(p.v, fact) ELSE <<>>]
SSmooth(p, w) == [p EXCEPT !.xy = XY(PSmooth(SX(p), w), PSmooth(SY(p), w)),
                           !.v = IF HasV(p) THEN PSmooth(p.v, w) ELSE <<>>]
\* velocity between successive times, at the middle
SVelocity(p, comp, incr, xaxis) ==
    LET q == SSort(p, "v")
        ids == Idx(q.v, LAMBDA i : (i - 1) % incr = 0)
        g == SSub(q, ids)
        n == SN(g) - 1
        c == SCoord(g, comp)
        ref == SCoord(g, IF xaxis = "time" THEN "v" ELSE xaxis)
    IN  PMake([i \in 1..n |-> QHalf(QAdd(ref[i], ref[i + 1]))],
              [i \in 1..n |-> QDiv(QSub(c[i + 1], c[i]), QSub(g.v[i + 1], g.v[i]))],
              [i \in 1..n |-> FALSE], SUnit(g, IF xaxis = "time" THEN "v" ELSE xaxis), UDivU(SUnit(p, comp), p.uv))
\* each point counts at the nearest point of a regular grid spanning them all
SGrid(s, n) == LET lo == QMinSeq(s)
                   hi == QMaxSeq(s)
               IN  [i \in 1..n |-> QAdd(lo, QMul(<<i - 1, n - 1>>, QSub(hi, lo)))]
SNear(a, q) == CHOOSE i \in 1..Len(a) : \A j \in 1..Len(a) : QLe(QAbs(QSub(a[i], q)), QAbs(QSub(a[j], q)))
SDensity(p, nx, ny, pond) ==
    LET ax == TLCEval(SGrid(SX(p), nx))
        ay == TLCEval(SGrid(SY(p), ny))
        cell == QMul(QSub(ax[2], ax[1]), QSub(ay[2], ay[1]))
        ix == TLCEval([k \in 1..SN(p) |-> SNear(ax, p.xy[k][1])])
        iy == TLCEval([k \in 1..SN(p) |-> SNear(ay, p.xy[k][2])])
        at(i, j) == QDiv(QSumSeq([k \in 1..SN(p) |-> IF ix[k] = i /\ iy[k] = j
                                                     THEN (IF pond THEN p.v[k] ELSE One) ELSE Zero]), cell)
    IN  [k |-> "F", nc |-> 1, ax |-> ax, ay |-> ay, v |-> <<Mat(nx, ny, at)>>, ux |-> p.ux, uy |-> p.uy,
         uv |-> UDivU(UDivU(IF pond THEN p.uv ELSE UNone, p.ux), p.uy)]

-----------------------------------------------------------------------------
SStep(ws, e, o) ==
    LET a == e.a
        p == ws[e.s]
        d == Dst(e)
        n == SN(p)
        put(g) == Done(Put(ws, d, g), <<>>)
        out(g) == Done(Put(ws, e.d, g), <<>>)
        self(g) == Done(Put(ws, e.s, g), <<>>)
        ret(x) == Done(ws, x)
        where(f, i) == ValueAt(f, 1, p.xy[i][1], p.xy[i][2])
    IN
    CASE e.op = "mk" ->
          LET b == [k |-> "S", xy |-> a.xy, v |-> a.v, ux |-> a.ux, uy |-> a.uy, uv |-> a.uv]
          IN  Guard(ws, Len(a.v) \notin {0, Len(a.xy)} \/ (a.ori /\ Len(a.or) # Len(a.xy)),
                    out(IF a.ori THEN [k |-> "O", or |-> a.or] @@ b ELSE b))
      [] e.op = "copy" -> out(p)
      [] e.op = "len" -> ret(<<R(n)>>)
      [] e.op = "eq" -> LET r == ws[e.t] IN
          ret(<<p.xy = r.xy /\ p.v = r.v /\ p.ux = r.ux /\ p.uy = r.uy /\ p.uv = r.uv>>)
      [] e.op = "iter" -> ret([i \in 1..n |-> <<p.xy[i], IF HasV(p) THEN <<p.v[i]>> ELSE <<>>,
                                               IF p.k = "O" THEN p.or[i] ELSE <<>> >>])
      [] e.op = "setxy" -> self([p EXCEPT !.xy = a.xy, !.v = IF Len(a.xy) = Len(p.v) THEN p.v ELSE <<>>])
      [] e.op = "setv" -> Guard(ws, Len(a.v) \notin {0, n}, self([p EXCEPT !.v = a.v]))
      [] e.op = "poke" -> self([p EXCEPT !.xy[a.i + 1] = a.xy])
      [] e.op = "setunit" -> self(CASE a.axe = "x" -> [p EXCEPT !.ux = a.u] [] a.axe = "y" -> [p EXCEPT !.uy = a.u]
                                    [] a.axe = "v" -> [p EXCEPT !.uv = a.u])
      [] e.op = "cat" -> LET r == ws[e.t] IN
          IF n = 0 THEN out(r) ELSE IF SN(r) = 0 THEN out(p)
          ELSE Guard(ws, SCatErr(p, r), out(SCat(p, r)))
      [] e.op = "addpt" ->
          Guard(ws, n > 0 /\ HasV(p) # (a.v # <<>>),
                self(LET q == [p EXCEPT !.xy = Append(p.xy, a.xy), !.v = p.v \o a.v]
                     IN  IF p.k = "O" THEN [q EXCEPT !.or = Append(p.or, a.or)] ELSE q))
      [] e.op = "rm" -> self(SKeep(p, LAMBDA i : i - 1 \notin Range1(a.ids)))
      [] e.op = "unit" -> Guard(ws, ~UCompat(SUnit(p, a.axe), a.u), self(SToUnit(p, a.axe, a.u)))
      [] e.op = "origin" -> self(SMapXY(p, LAMBDA x, y : <<QSub(x, a.x), QSub(y, a.y)>>))
      [] e.op = "crop" -> put(IF a.ind THEN SSub(p, Span(a.wi[1] + 1, IF a.wi[2] > n THEN n ELSE a.wi[2]))
                              ELSE SCrop(p, a.wx, a.wy, a.wv))
      [] e.op = "cut" -> out(SCut(p, a.wx, a.wy))
      [] e.op = "scale" -> Phys(put(SScale(p, a.sx, a.sy, a.sv)))
      [] e.op = "rotate" ->
          LET rot(x, y) == <<QSub(QMul(x, a.c), QMul(y, a.s)), QAdd(QMul(y, a.c), QMul(x, a.s))>>
          IN  put(SMapOr(SMapXY(p, rot), rot))
      [] e.op = "reverse" -> LET sw(x, y) == <<y, x>> IN
          out([SMapOr(SMapXY(p, sw), sw) EXCEPT !.ux = p.uy, !.uy = p.ux])
      [] e.op = "decomp" -> Done(Put(ws, e.d, SSub(p, <<a.i + 1>>)), <<R(n)>>)
      [] e.op = "sort" -> put(IF a.ref = "ids" THEN SSub(p, [k \in 1..n |-> a.ids[k] + 1]) ELSE SSort(p, a.ref))
      [] e.op = "rmnan" -> put(SKeep(p, LAMBDA i : ~IsNanPt(p, i)))
      [] e.op = "doub" -> put(SDoub(p, a.how))
      [] e.op = "augment" -> put(SAug(p, a.fact))
      [] e.op = "smooth" -> put(SSmooth(p, a.size))
      [] e.op = "toprof" -> out(PMake(SCoord(p, a.x), SCoord(p, a.y), [i \in 1..n |-> FALSE], SUnit(p, a.x), SUnit(p, a.y)))
      [] e.op = "veloc" -> Guard(ws, ~HasV(p), Phys(out(SVelocity(p, a.comp, a.incr, a.xaxis))))
      [] e.op = "evol" -> \* the value of a scalar field at the points
          LET f == ws[e.t]
              ref == IF a.axe = "" THEN (IF HasV(p) THEN "v" ELSE "x") ELSE a.axe
          IN  Guard(ws, (ref = "v" /\ ~HasV(p)) \/ \E i \in 1..n : OutOf(f.ax, p.xy[i][1]) \/ OutOf(f.ay, p.xy[i][2]),
                    out(PMake(SCoord(p, ref), [i \in 1..n |-> CHOOSE q \in where(f, i) : TRUE],
                              [i \in 1..n |-> M \in where(f, i)], SUnit(p, ref), f.uv)))
      [] e.op = "evolt" -> \* the same in the field of the time given by the value of the point
          LET t == ws[e.t]
              f(i) == t.fs[SetMin({m \in 1..Len(t.ts) : t.ts[m] = p.v[i]})]
              ref == IF a.axe = "" THEN "v" ELSE a.axe
          IN  Guard(ws, \E i \in 1..n : OutOf(t.ax, p.xy[i][1]) \/ OutOf(t.ay, p.xy[i][2]) \/ p.v[i] \notin Range1(t.ts),
                    out(PMake(SCoord(p, ref), [i \in 1..n |-> CHOOSE q \in where(f(i), i) : TRUE],
                              [i \in 1..n |-> M \in where(f(i), i)], SUnit(p, ref), t.fs[1].uv)))
      [] e.op = "dens" -> Phys(out(SDensity(p, a.nx, a.ny, a.pond)))
      [] e.op = "kde" -> ret(<<CASE a.fmt = "normalized" -> One [] a.fmt = "percentage" -> R(100) [] OTHER -> R(n), TRUE>>)

-----------------------------------------------------------------------------
TPN(t) == Len(t.ps)
WFTPts(t) == Len(t.ts) = TPN(t) /\ Sorted(t.ts) /\ \A i \in 1..TPN(t) : WFPts(t.ps[i])
TPSub(t, ids) == [t EXCEPT !.ts = Pick(t.ts, ids), !.ps = Pick(t.ps, ids)]
TPMap(t, G(_)) == [t EXCEPT !.ps = TLCEval([i \in 1..TPN(t) |-> G(t.ps[i])])]
TPAdd(t, p, time) ==
    LET at == 1 + Cardinality({i \in 1..TPN(t) : QLe(t.ts[i], time)})
    IN  [t EXCEPT !.ts = InsertAt(t.ts, at, time), !.ps = InsertAt(t.ps, at, p)]
TPSort(t) == TPSub(t, SRank(t.ts))

TPStep(ws, e, o) ==
    LET a == e.a
        t == ws[e.s]
        d == Dst(e)
        n == TPN(t)
        put(g) == Done(Put(ws, d, g), <<>>)
        out(g) == Done(Put(ws, e.d, g), <<>>)
        self(g) == Done(Put(ws, e.s, g), <<>>)
        ret(x) == Done(ws, x)
    IN
    CASE e.op = "new" -> out([k |-> "TP", ts |-> <<>>, ut |-> UNone, ux |-> UNone, uy |-> UNone, ps |-> <<>>])
      [] e.op = "add" -> LET p == ws[e.t] IN
          IF n = 0 THEN self([t EXCEPT !.ts = <<a.time>>, !.ut = a.u, !.ux = p.ux, !.uy = p.uy, !.ps = <<p>>])
          ELSE Guard(ws, ~UCompat(a.u, t.ut), self(TPAdd(t, p, QMul(a.time, UFact(a.u, t.ut)))))
      [] e.op = "rm" -> self(TPSub(t, SelectSeq(Span(1, n), LAMBDA i : i - 1 \notin Range1(a.ids))))
      [] e.op = "copy" -> out(t)
      [] e.op = "len" -> ret(<<R(n)>>)
      [] e.op = "get" -> out(t.ps[a.i + 1])
      [] e.op = "iter" -> ret([i \in 1..n |-> <<t.ts[i], t.ps[i].xy>>])
      [] e.op = "settimes" -> Guard(ws, Len(a.ts) # n, self(TPSort([t EXCEPT !.ts = a.ts])))
      [] e.op = "setunit" -> self(CASE a.axe = "time" -> [t EXCEPT !.ut = a.u]
                                    [] a.axe = "x" -> [TPMap(t, LAMBDA p : [p EXCEPT !.ux = a.u]) EXCEPT !.ux = a.u]
                                    [] a.axe = "y" -> [TPMap(t, LAMBDA p : [p EXCEPT !.uy = a.u]) EXCEPT !.uy = a.u])
      [] e.op = "crop" ->
          LET ids == IF a.wi # <<>> THEN Span(a.wi[1] + 1, IF a.wi[2] + 1 > n THEN n ELSE a.wi[2] + 1)
                     ELSE IF a.wt = <<>> THEN Span(1, n) ELSE InWin(t.ts, a.wt[1], a.wt[2])
          IN  Guard(ws, a.wi = <<>> /\ a.wt # <<>> /\ (QLt(t.ts[n], a.wt[1]) \/ QLt(a.wt[2], t.ts[1])),
                    put(TPMap(TPSub(t, ids), LAMBDA p : SCrop(p, a.wx, a.wy, a.wv))))
      [] e.op = "scale" ->
          Phys(put(TPSort([TPMap(t, LAMBDA p : SScale(p, a.sx, a.sy, a.sv)) EXCEPT
               !.ts = ScaleSeq(t.ts, a.st[1]), !.ut = UMul(t.ut, a.st[2]),
               !.ux = UMul(t.ux, a.sx[2]), !.uy = UMul(t.uy, a.sy[2])])))
      [] e.op = "unit" ->
          (CASE a.axe = "time" -> Guard(ws, ~UCompat(t.ut, a.u), self([t EXCEPT !.ut = a.u, !.ts = ScaleSeq(t.ts, UFact(t.ut, a.u))]))
            [] a.axe = "values" -> Guard(ws, ~UCompat(t.ps[1].uv, a.u), self(TPMap(t, LAMBDA p : SToUnit(p, "v", a.u))))
            [] OTHER -> LET u == IF a.axe = "x" THEN t.ux ELSE t.uy
                            g == TPMap(t, LAMBDA p : SToUnit(p, a.axe, a.u))
                        IN  Guard(ws, ~UCompat(u, a.u), self(IF a.axe = "x" THEN [g EXCEPT !.ux = a.u] ELSE [g EXCEPT !.uy = a.u])))
      [] e.op = "smooth" -> put(TPMap(t, LAMBDA p : SSmooth(p, a.size)))
=============================================================================
