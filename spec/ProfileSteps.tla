---------------------------- MODULE ProfileSteps ----------------------------
(* Profiles: a quantity y along an axis x.                                   *)
(*   [k |-> "P", x, y, ux, uy]   x ascending, y[i] = M where masked          *)
EXTENDS TemporalSteps

PN(p) == Len(p.x)
WFProf(p) == /\ Len(p.y) = PN(p) /\ Sorted(p.x)
             /\ \A i \in 1..PN(p) : IsNum(p.x[i]) /\ (IsNum(p.y[i]) \/ p.y[i] = M)
PValid(p) == Idx(p.y, LAMBDA i : p.y[i] # M)
PSub(p, ids) == [p EXCEPT !.x = Pick(p.x, ids), !.y = Pick(p.y, ids)]
PMap(p, G(_)) == [p EXCEPT !.y = MapS(LAMBDA q : IF q = M THEN M ELSE G(q), p.y)]
\* sorted along x; points at the same x in the order of their values, masked last
PBefore(x1, y1, x2, y2) ==
    IF x1 # x2 THEN QLt(x1, x2)
    ELSE IF y1 = M \/ y2 = M THEN y1 # M /\ y2 = M ELSE QLt(y1, y2)
PSort(p) ==
    LET n == PN(p)
        rank == TLCEval([i \in 1..n |-> 1 + Cardinality({j \in 1..n :
                    PBefore(p.x[j], p.y[j], p.x[i], p.y[i])
                    \/ (j < i /\ ~PBefore(p.x[i], p.y[i], p.x[j], p.y[j]))})])
        at == TLCEval([k \in 1..n |-> CHOOSE i \in 1..n : rank[i] = k])
    IN  PSub(p, at)
PMake(x, y, mask, ux, uy) ==
    PSort(Prof(x, [i \in 1..Len(x) |-> IF mask[i] \/ y[i] = NAN THEN M ELSE y[i]], ux, uy))
PDistinct(p) == \A i \in 1..(PN(p) - 1) : p.x[i] # p.x[i + 1]
EvenX(x) == \A i \in 1..(Len(x) - 1) : QSub(x[i + 1], x[i]) = QSub(x[2], x[1])
PEven(p) == EvenX(p.x)
PStep1(p) == QSub(p.x[2], p.x[1])

PCropInd(p, a, b) == PSub(p, Span(a + 1, b))     \* a..b-1, from 0
PTrim(p) == LET v == PValid(p) IN PSub(p, Span(v[1], v[Len(v)]))
PSame(p, r) == \* same axis, as a physical quantity
    UCompat(p.ux, r.ux) /\ PN(p) = PN(r) /\ ScaleSeq(r.x, UFact(r.ux, p.ux)) = p.x
PAdd(p, r, s) ==
    [p EXCEPT !.y = TLCEval([i \in 1..PN(p) |->
        QAdd(p.y[i], QMul(QMul(R(s), UFact(r.uy, p.uy)), r.y[i]))])]

(* looking up: piecewise linear, masked next to a masked point *)
PAt(x, y, q) ==
    LET hit == {i \in 1..Len(x) : x[i] = q} IN
    IF hit # {} THEN <<y[SetMin(hit)]>>
    ELSE IF OutOf(x, q) THEN <<>>
    ELSE LET u == SetMin({i \in 1..Len(x) : QLt(q, x[i])})
         IN  <<IF y[u - 1] = M \/ y[u] = M THEN M ELSE Lerp(x[u - 1], y[u - 1], x[u], y[u], q)>>
PIndex(p) == [i \in 1..PN(p) |-> R(i - 1)]
\* where y takes the value v: at points, else between them
PCross(x, y, v) ==
    LET hit == Idx(y, LAMBDA i : y[i] = v)
        up(i) == /\ i < Len(y) /\ y[i] # M /\ y[i + 1] # M
                 /\ Sgn(QSub(y[i], v)) * Sgn(QSub(y[i + 1], v)) < 0
        seg == Idx(y, LAMBDA i : up(i))
    IN  IF hit # <<>> THEN Pick(x, hit)
        ELSE [k \in 1..Len(seg) |-> LET i == seg[k] IN Lerp(y[i], x[i], y[i + 1], x[i + 1], v)]
\* linear between the valid points
PLin(x, y, q) == LET hit == {i \in 1..Len(x) : x[i] = q}
                     u == SetMin({i \in 1..Len(x) : QLt(q, x[i])})
                 IN  IF hit # {} THEN y[SetMin(hit)] ELSE Lerp(x[u - 1], y[u - 1], x[u], y[u], q)
PVal(p, q) == LET v == PValid(p) IN PLin(Pick(p.x, v), Pick(p.y, v), q)
\* linear, continued outside
PExt(p, q) ==
    LET n == PN(p) IN
    IF QLt(q, p.x[1]) THEN Lerp(p.x[1], p.y[1], p.x[2], p.y[2], q)
    ELSE IF QLt(p.x[n], q) THEN Lerp(p.x[n - 1], p.y[n - 1], p.x[n], p.y[n], q)
    ELSE PLin(p.x, p.y, q)
PFill(p) == \* linear inside, the nearest valid value at the ends
    LET v == PValid(p)
        a == v[1]
        b == v[Len(v)]
    IN  [p EXCEPT !.y = TLCEval([i \in 1..PN(p) |->
            IF i < a THEN p.y[a] ELSE IF i > b THEN p.y[b] ELSE PVal(p, p.x[i])])]
PClamp(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
PSmooth(s, w) == \* moving average of w points, the end values continued
    LET n == Len(s)
        lo == w \div 2
    IN  TLCEval([i \in 1..n |-> QMeanSeq([k \in 1..w |-> s[PClamp(i - lo + k - 1, n)]])])
PGrad(p) ==
    LET n == PN(p)
        d == PStep1(p)
    IN  [p EXCEPT !.uy = UDivU(p.uy, p.ux),
          !.y = TLCEval([i \in 1..n |->
             IF i = 1 THEN QDiv(QSub(p.y[2], p.y[1]), d)
             ELSE IF i = n THEN QDiv(QSub(p.y[n], p.y[n - 1]), d)
             ELSE QDiv(QSub(p.y[i + 1], p.y[i - 1]), QMul(R(2), d))])]
PEvenly(p, dx) ==
    LET n == PN(p)
        len == QSub(p.x[n], p.x[1])
        m == QFloor(QDiv(len, dx))
        x == [i \in 1..(m + 1) |-> QAdd(p.x[1], QMul(R(i - 1), QDiv(len, R(m))))]
    IN  [p EXCEPT !.x = x, !.y = TLCEval([i \in 1..(m + 1) |->
            IF i = 1 THEN p.y[1] ELSE IF i = m + 1 THEN p.y[n] ELSE PVal(p, x[i])])]
PAugment(p0, fact) ==
    LET p == PTrim(p0)
        v == PValid(p)
        iv == [k \in 1..Len(v) |-> R((v[k] - 1) * fact)]
        n == (PN(p) - 1) * fact + 1
        on(s) == TLCEval([k \in 1..n |-> PLin(iv, Pick(s, v), R(k - 1))])
    IN  [p EXCEPT !.x = on(p.x), !.y = on(p.y)]
PConv(a, b, mode) ==
    LET n == Len(a)
        m == Len(b)
        full == [k \in 1..(n + m - 1) |->
                  QSumSeq([i \in 1..n |-> IF k + 1 - i >= 1 /\ k + 1 - i <= m
                                          THEN QMul(a[i], b[k + 1 - i]) ELSE Zero])]
        lo == IF n < m THEN n ELSE m
        hi == IF n < m THEN m ELSE n
    IN  TLCEval(CASE mode = "full" -> full
          [] mode = "same" -> SubSeq(full, ((lo - 1) \div 2) + 1, ((lo - 1) \div 2) + hi)
          [] mode = "valid" -> SubSeq(full, lo, hi))
\* one point per x
PDoub(p, how) ==
    LET fst == Idx(p.x, LAMBDA i : i = 1 \/ p.x[i] # p.x[i - 1])
        grp(i) == Pick(p.y, Idx(p.x, LAMBDA j : p.x[j] = p.x[i]))
        f(s) == IF M \in Range1(s) THEN M
                ELSE (CASE how = "average" -> QMeanSeq(s) [] how = "min" -> QMinSeq(s) [] how = "max" -> QMaxSeq(s))
    IN  [p EXCEPT !.x = Pick(p.x, fst), !.y = TLCEval([k \in 1..Len(fst) |-> f(grp(fst[k]))])]

-----------------------------------------------------------------------------
PStep(ws, e, o) ==
    LET a == e.a
        p == ws[e.s]
        d == Dst(e)
        n == PN(p)
        v == PValid(p)
        put(g) == Done(Put(ws, d, g), <<>>)
        out(g) == Done(Put(ws, e.d, g), <<>>)
        self(g) == Done(Put(ws, e.s, g), <<>>)
        ret(x) == Done(ws, x)
    IN
    CASE e.op = "mk" -> Guard(ws, Len(a.x) # Len(a.y), out(PMake(a.x, a.y, a.mask, a.ux, a.uy)))
      [] e.op = "copy" -> out(p)
      [] e.op = "eq" -> LET r == ws[e.t] IN
          ret(<<PValid(p) = PValid(r) /\ n = PN(r) /\ Pick(p.x, v) = Pick(r.x, v) /\ Pick(p.y, v) = Pick(r.y, v)
                /\ p.ux = r.ux /\ p.uy = r.uy>>)
      [] e.op = "len" -> ret(<<R(n)>>)
      [] e.op = "setx" -> Guard(ws, Len(a.x) # n, self(PSort([p EXCEPT !.x = a.x])))
      [] e.op = "sety" -> self([p EXCEPT !.y = [i \in 1..n |-> IF a.y[i] = NAN THEN M ELSE a.y[i]]])
      [] e.op = "poke" -> self([p EXCEPT !.y[a.i + 1] = a.v])
      [] e.op = "setmask" -> self([p EXCEPT !.y = [i \in 1..n |-> IF a.mask[i] THEN M ELSE p.y[i]]])
      [] e.op = "setunit" -> self(IF a.axe = "x" THEN [p EXCEPT !.ux = a.u] ELSE [p EXCEPT !.uy = a.u])
      [] e.op = "addpt" -> self(PSort([p EXCEPT !.x = Append(p.x, a.x), !.y = Append(p.y, IF a.y = NAN THEN M ELSE a.y)]))
      [] e.op = "addpts" -> LET r == ws[e.t] IN
          Guard(ws, n > 0 /\ (p.ux # r.ux \/ p.uy # r.uy),
                self(PSort([p EXCEPT !.x = p.x \o r.x, !.y = p.y \o r.y,
                                     !.ux = IF n = 0 THEN r.ux ELSE p.ux, !.uy = IF n = 0 THEN r.uy ELSE p.uy])))
      [] e.op = "rmpt" -> self(PSub(p, SelectSeq(Span(1, n), LAMBDA i : i # a.i + 1)))
      [] e.op = "crop" ->
         (CASE a.mode = "ind" -> Guard(ws, a.wi[1] >= a.wi[2] \/ a.wi[1] < 0 \/ a.wi[2] > n, put(PCropInd(p, a.wi[1], a.wi[2])))
            [] a.mode = "x" -> Guard(ws, QLe(a.w[2], a.w[1]) \/ QLt(a.w[2], p.x[1]) \/ QLt(p.x[n], a.w[1]),
                                     put(PSub(p, InWin(p.x, a.w[1], a.w[2]))))
            [] a.mode = "y" -> \* strictly inside
                Guard(ws, QLe(a.w[2], a.w[1]),
                      put(PSub(p, Idx(p.y, LAMBDA i : p.y[i] # M /\ QLt(a.w[1], p.y[i]) /\ QLt(p.y[i], a.w[2])))))
            [] a.mode = "xy" ->
                put(PSub(p, Idx(p.y, LAMBDA i : /\ QLe(a.w[1], p.x[i]) /\ QLe(p.x[i], a.w[2])
                       /\ p.y[i] # M /\ QLt(a.wy[1], p.y[i]) /\ QLt(p.y[i], a.wy[2])))))
      [] e.op = "cropb" -> put(PTrim(p))
      [] e.op = "scale" ->
          Phys(put(PSort([p EXCEPT !.x = ScaleSeq(p.x, a.sx[1]), !.y = ScaleSeq(p.y, a.sy[1]),
                          !.ux = UMul(p.ux, a.sx[2]), !.uy = UMul(p.uy, a.sy[2])])))
      [] e.op = "unit" ->
          IF a.axe = "x"
          THEN Guard(ws, ~UCompat(p.ux, a.u), self([p EXCEPT !.ux = a.u, !.x = ScaleSeq(p.x, UFact(p.ux, a.u))]))
          ELSE Guard(ws, ~UCompat(p.uy, a.u), self([p EXCEPT !.uy = a.u, !.y = ScaleSeq(p.y, UFact(p.uy, a.u))]))
      [] e.op = "rmnan" -> put(PSub(p, v))
      [] e.op = "doub" -> put(PDoub(p, a.how))
      [] e.op = "marg" -> \* values away from the mean by more than a.f standard deviations get masked
          LET m == QMeanSeq(Pick(p.y, v))
              var == QMeanSeq([k \in 1..Len(v) |-> QSq(QSub(p.y[v[k]], m))])
              lim == QMul(QSq(a.f), var)
              dev(i) == QSq(QSub(p.y[i], m))
              g == o[d]
          IN  Rel(Put(ws, d, g),
                  /\ g.k = "P" /\ g.x = p.x /\ g.ux = p.ux /\ g.uy = p.uy /\ Len(g.y) = n
                  /\ \A i \in 1..n : IF p.y[i] = M \/ QLt(lim, dev(i)) THEN g.y[i] = M
                                     ELSE g.y[i] = p.y[i] \/ (dev(i) = lim /\ g.y[i] = M), <<>>)
      \* ---- arithmetic
      [] e.op = "neg" -> out(PMap(p, QNeg))
      [] e.op = "addq" ->
          Guard(ws, a.kind = "unum" /\ ~UCompat(p.uy, a.u),
                LET k == QMul(IF a.kind = "unum" THEN UFact(a.u, p.uy) ELSE One, a.q[1])
                IN  out(PMap(p, LAMBDA y : IF a.how = "rsub" THEN QSub(k, y)
                                           ELSE IF a.how = "sub" THEN QSub(y, k) ELSE QAdd(y, k))))
      [] e.op = "add" -> LET r == ws[e.t] IN
          Guard(ws, ~PSame(p, r) \/ ~UCompat(p.uy, r.uy), out(PAdd(p, r, IF a.sub THEN -1 ELSE 1)))
      [] e.op = "mulq" -> Phys(out([PMap(p, LAMBDA y : QMul(y, a.q[1])) EXCEPT !.uy = UMul(p.uy, a.u)]))
      [] e.op = "divq" -> Phys(out([PMap(p, LAMBDA y : QDiv(y, a.q[1])) EXCEPT !.uy = UDivU(p.uy, a.u)]))
      [] e.op = "mulp" -> LET r == ws[e.t] IN
          Guard(ws, p.x # r.x \/ p.ux # r.ux,
                Phys(out([p EXCEPT !.uy = UMul(p.uy, r.uy), !.y = TLCEval([i \in 1..n |-> QMul(p.y[i], r.y[i])])])))
      [] e.op = "divp" -> LET r == ws[e.t] IN \* masked where the divisor is zero
          Guard(ws, ~PSame(p, r),
                Phys(out([p EXCEPT !.uy = UDivU(p.uy, r.uy), !.y = TLCEval([i \in 1..n |-> QDiv(p.y[i], r.y[i])])])))
      [] e.op = "pow" -> Phys(out([PMap(p, LAMBDA y : QPow(y, a.n)) EXCEPT !.uy = UPow(p.uy, a.n)]))
      \* ---- values
      [] e.op = "stat" -> LET s == Pick(p.y, v) IN
          ret(IF s = <<>> THEN <<>>
              ELSE <<CASE a.kind = "min" -> QMinSeq(s) [] a.kind = "max" -> QMaxSeq(s) [] a.kind = "mean" -> QMeanSeq(s)>>)
      [] e.op = "ipx" -> \* one position: the value; several: one value each
          LET x == IF a.ind THEN PIndex(p) ELSE p.x
              one(q) == PAt(x, p.y, q)
          IN  ret(IF ~a.list THEN one(a.q[1])
                  ELSE [k \in 1..Len(a.q) |-> IF one(a.q[k]) = <<>> \/ one(a.q[k]) = <<M>> THEN NAN ELSE one(a.q[k])[1]])
      [] e.op = "ipy" ->
          LET one(q) == PCross(p.x, p.y, q)
          IN  ret(IF ~a.list THEN one(a.q[1])
                  ELSE [k \in 1..Len(a.q) |-> IF one(a.q[k]) = <<>> THEN NAN ELSE one(a.q[k])[1]])
      [] e.op = "vpos" -> ret(PCross(IF a.ind THEN PIndex(p) ELSE p.x, p.y, a.v))
      [] e.op = "interp" -> \* through the valid points only
          LET x == Pick(p.x, v) IN
          IF a.strict THEN Guard(ws, OutOf(x, a.q), ret(<<PVal(p, a.q)>>))
          ELSE ret(<<IF OutOf(x, a.q) THEN NAN ELSE PVal(p, a.q)>>)
      [] e.op = "integ" -> Phys(ret(<<Trapz(Pick(p.x, v), Pick(p.y, v)), UMul(p.ux, p.uy)>>))
      [] e.op = "grad" -> Guard(ws, ~PEven(p), Phys(out(PGrad(p))))
      [] e.op = "gradat" ->
          LET h == IF a.dx = <<>> THEN PStep1(p) ELSE a.dx[1]
              L(q) == PExt(p, q)
          IN  Guard(ws, ~PEven(p),
                ret(<<IF QLt(a.q, p.x[1]) THEN QDiv(QSub(L(QAdd(a.q, h)), L(a.q)), h)
                      ELSE IF QLt(p.x[n], a.q) THEN QDiv(QSub(L(a.q), L(QSub(a.q, h))), h)
                      ELSE QDiv(QSub(L(QAdd(a.q, h)), L(QSub(a.q, h))), QMul(R(2), h))>>))
      [] e.op = "fill" -> put(IF a.kind = "value" THEN [p EXCEPT !.y = [i \in 1..n |-> IF p.y[i] = M THEN a.v ELSE p.y[i]]]
                              ELSE PFill(IF a.crop THEN PTrim(p) ELSE p))
      [] e.op = "smooth" -> LET g == PFill(p) IN
          put(IF a.dir = "y" THEN [g EXCEPT !.y = PSmooth(g.y, a.size)] ELSE [g EXCEPT !.x = PSmooth(g.x, a.size)])
      [] e.op = "even" -> put(IF PEven(p) THEN p ELSE PEvenly(p, IF a.dx = <<>> THEN QDiv(QSub(p.x[n], p.x[1]), R(n - 1)) ELSE a.dx[1]))
      [] e.op = "augment" -> put(PAugment(p, a.fact))
      [] e.op = "conv" -> LET r == ws[e.t] IN
          Guard(ws, ~PEven(p) \/ ~PEven(r) \/ PStep1(p) # PStep1(r) \/ p.ux # r.ux,
                LET y == PConv(p.y, r.y, a.mode)
                IN  Phys(out(Prof([i \in 1..Len(y) |-> QMul(R(i - 1), PStep1(p))], y, p.ux, UMul(p.uy, r.uy)))))
=============================================================================
