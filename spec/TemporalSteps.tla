--------------------------- MODULE TemporalSteps ---------------------------
(* Sets of fields ordered in time, all on the same grid.                     *)
(*   [k |-> "T", nc, ts, ut, ax, ay, ux, uy, fs]                             *)
(* ts[n]: the time of the field fs[n]; ax, ay, ux, uy: the grid the set      *)
(* itself shows.                                                             *)
EXTENDS FieldSteps

NT(t) == Len(t.fs)
WFTemp(t) ==
    /\ Len(t.ts) = NT(t) /\ Sorted(t.ts)
    /\ \A n \in 1..NT(t) :
         LET f == t.fs[n] IN
         /\ f.k = "F" /\ f.nc = t.nc /\ WFField(f)
         /\ f.ax = t.ax /\ f.ay = t.ay /\ f.ux = t.ux /\ f.uy = t.uy

TEmpty(nc) == [k |-> "T", nc |-> nc, ts |-> <<>>, ut |-> UNone, ax |-> <<>>, ay |-> <<>>,
               ux |-> UNone, uy |-> UNone, fs |-> <<>>]
\* the set made of these fields at these times: its grid is that of the fields
TOf(t, ts, fs) == [t EXCEPT !.ts = ts, !.fs = fs,
                      !.ax = fs[1].ax, !.ay = fs[1].ay, !.ux = fs[1].ux, !.uy = fs[1].uy]
TMap(t, G(_)) == TOf(t, t.ts, TLCEval([n \in 1..NT(t) |-> TLCEval(G(t.fs[n]))]))
TMapN(t, G(_, _)) == TOf(t, t.ts, TLCEval([n \in 1..NT(t) |-> TLCEval(G(n, t.fs[n]))]))

InsertAt(s, p, x) == SubSeq(s, 1, p - 1) \o <<x>> \o SubSeq(s, p, Len(s))
AddField(t, f, time, ut) ==
    IF NT(t) = 0
    THEN [t EXCEPT !.ts = <<time>>, !.ut = ut, !.fs = <<f>>, !.nc = f.nc,
                   !.ax = f.ax, !.ay = f.ay, !.ux = f.ux, !.uy = f.uy]
    ELSE LET q == IF UCompat(ut, t.ut) THEN QMul(time, UFact(ut, t.ut)) ELSE time
             p == Cardinality({n \in 1..NT(t) : QLe(t.ts[n], q)}) + 1
         IN  [t EXCEPT !.ts = InsertAt(t.ts, p, q), !.fs = InsertAt(t.fs, p, f)]
SameTimes(t, u) == ScaleSeq(u.ts, UFact(u.ut, t.ut)) = t.ts
AddFieldErr(t, f) == NT(t) > 0 /\ (f.nc # t.nc \/ f.ax # t.ax \/ f.ay # t.ay)
RECURSIVE AddAll(_, _, _)
AddAll(t, u, n) == IF n > NT(u) THEN t ELSE AddAll(AddField(t, u.fs[n], u.ts[n], u.ut), u, n + 1)
\* 0-based indices; negative ones count from the end
Drop(s, ids) == LET n == Len(s)
                    out == {IF k < 0 THEN n + k + 1 ELSE k + 1 : k \in Range1(ids)}
                IN  Pick(s, SelectSeq([i \in 1..n |-> i], LAMBDA i : i \notin out))

\* points masked in every field
CumMasked(t, i, j) == \A n \in 1..NT(t) : Masked(t.fs[n], i, j)
CumField(t) == MaskCells(FillValue(Comp(t.fs[1], 1), <<One>>), LAMBDA i, j : CumMasked(t, i, j))
RECURSIVE THard(_)
THard(t) == \* remove the border with the most points masked everywhere, until none has any
    LET f == CumField(t)
        nx == NX(f)
        ny == NY(f)
        b == <<NMaskRow(f, 1), NMaskRow(f, nx), NMaskCol(f, 1), NMaskCol(f, ny)>>
        top == SetMax({b[k] : k \in 1..4})
        w == SetMin({k \in 1..4 : b[k] = top})
    IN  IF top = 0 THEN t
        ELSE THard(TMap(t, LAMBDA g : SubGrid(g,
                 CASE w = 1 -> Span(2, nx) [] w = 2 -> Span(1, nx - 1) [] OTHER -> Span(1, nx),
                 CASE w = 3 -> Span(2, ny) [] w = 4 -> Span(1, ny - 1) [] OTHER -> Span(1, ny))))
TCropBorder(t, hard) ==
    LET c == CumField(t)
        s == TMap(t, LAMBDA g : SubGrid(g, Span(SetMin(LiveX(c)), SetMax(LiveX(c))),
                                           Span(SetMin(LiveY(c)), SetMax(LiveY(c)))))
    IN  IF ~AnyMasked(c) THEN t ELSE IF hard THEN THard(s) ELSE s

-----------------------------------------------------------------------------
(* statistics in time, over the valid values of each point *)
TSeq(t, c, i, j) == SelectSeq([n \in 1..NT(t) |-> t.fs[n].v[c][i][j]], LAMBDA q : q # M)
\* a value is given when more than nmin values are available
TStat(t, nmin, S(_)) ==
    [t.fs[1] EXCEPT !.v = TLCEval([c \in 1..t.nc |-> Mat(Len(t.ax), Len(t.ay), LAMBDA i, j :
        LET s == TSeq(t, c, i, j) IN IF Len(s) <= nmin THEN M ELSE S(s))])]
TMean(t, nmin) == TStat(t, nmin, QMeanSeq)
Fluct(t, nmin) == LET m == TMean(t, nmin) IN TMap(t, LAMBDA f : AddF(f, m, -1))
Half2(f) == \* half the squared magnitude of a vector field
    [f EXCEPT !.nc = 1, !.uv = UPow(f.uv, 2),
              !.v = <<Mat(NX(f), NY(f), LAMBDA i, j :
                    IF Masked(f, i, j) THEN M
                    ELSE QHalf(QAdd(QSq(f.v[1][i][j]), QSq(f.v[2][i][j]))))>>]
Tke(t) == [TMap(Fluct(t, 1), Half2) EXCEPT !.nc = 1]
Reynolds(t, nmin, a, b) == \* mean of the product of the fluctuations a and b
    LET fl == TLCEval(Fluct(t, 1)) IN
    [t.fs[1] EXCEPT !.nc = 1, !.uv = UPow(t.fs[1].uv, 2),
       !.v = <<Mat(Len(t.ax), Len(t.ay), LAMBDA i, j :
           LET sa == TSeq(fl, a, i, j)
               sb == TSeq(fl, b, i, j)
           IN  IF Len(sa) <= nmin THEN M
               ELSE QMeanSeq([n \in 1..Len(sa) |-> QMul(sa[n], sb[n])]))>>]
TComp(t, c) == [TMap(t, LAMBDA f : Comp(f, c)) EXCEPT !.nc = 1]
\* ||fs[m] - fs[n]||^p, divided by (number of values)^p
RecDist(t, m, n, p) ==
    LET d == AddF(t.fs[m], t.fs[n], -1)
        s == IF t.nc = 1 THEN ValidSeq(d, 1) ELSE ValidSeq(d, 1) \o ValidSeq(d, 2)
    IN  QDiv(QSumAbsPow(s, p), QPow(R(t.nc * Len(t.ax) * Len(t.ay)), p))

-----------------------------------------------------------------------------
(* resampling in time *)
FieldAt(t, q) ==
    LET up == SetMin({n \in 1..NT(t) : QLe(q, t.ts[n])})
        w == QDiv(QSub(q, t.ts[up - 1]), QSub(t.ts[up], t.ts[up - 1]))
    IN  IF t.ts[up] = q THEN t.fs[up]
        ELSE AddF(MulQ(t.fs[up], w, UNone), MulQ(t.fs[up - 1], QSub(One, w), UNone), 1)
ReduceT(t, n, mean) ==
    LET nb == NT(t) \div n
        mid(b) == IF mean THEN QMeanSeq(SubSeq(t.ts, (b - 1) * n + 1, b * n)) ELSE t.ts[(b - 1) * n + 1]
        \* the sum, in the unit of the first field; masked as soon as one of them is
        S[b \in 1..nb, k \in 1..n] ==
            IF k = 1 THEN t.fs[(b - 1) * n + 1] ELSE TLCEval(AddF(S[b, k - 1], t.fs[(b - 1) * n + k], 1))
        fld(b) == IF ~mean \/ n = 1 THEN t.fs[(b - 1) * n + 1] ELSE MulQ(S[b, n], QInv(R(n)), UNone)
    IN  TOf(t, [b \in 1..nb |-> mid(b)], TLCEval([b \in 1..nb |-> fld(b)]))
AugmentT(t, fact) ==
    LET n == (NT(t) - 1) * fact + 1
        tm(k) == LET b == (k - 1) \div fact
                     r == (k - 1) % fact
                 IN  IF r = 0 THEN t.ts[b + 1]
                     ELSE QAdd(t.ts[b + 1], QMul(<<r, 1>>, QDiv(QSub(t.ts[b + 2], t.ts[b + 1]), R(fact))))
    IN  TOf(t, TLCEval([k \in 1..n |-> tm(k)]), TLCEval([k \in 1..n |-> FieldAt(t, tm(k))]))
CropT(t, lo, hi) == LET ids == InWin(t.ts, lo, hi) IN [t EXCEPT !.ts = Pick(t.ts, ids), !.fs = Pick(t.fs, ids)]
CropTI(t, lo, hi) == LET ids == IdxWin(NT(t), lo, hi) IN [t EXCEPT !.ts = Pick(t.ts, ids), !.fs = Pick(t.fs, ids)]
\* filling in time, at the points with at least three valid values
FillT(t, kind, val) ==
    LET ok(i, j) == /\ \E n \in 1..NT(t) : Masked(t.fs[n], i, j)
                    /\ Len(TSeq(t, 1, i, j)) >= 3
        lin(c, n, i, j) ==
            LET vs == {m \in 1..NT(t) : Valid(t.fs[m], i, j)}
                lo == {m \in vs : m < n}
                hi == {m \in vs : m > n}
            IN  IF lo = {} \/ hi = {} THEN M
                ELSE Lerp(t.ts[SetMax(lo)], t.fs[SetMax(lo)].v[c][i][j],
                          t.ts[SetMin(hi)], t.fs[SetMin(hi)].v[c][i][j], t.ts[n])
    IN  TMapN(t, LAMBDA n, f : [f EXCEPT !.v = TLCEval([c \in 1..t.nc |-> Mat(NX(f), NY(f), LAMBDA i, j :
            IF Masked(f, i, j) /\ ok(i, j)
            THEN IF kind = "value" THEN val[c] ELSE lin(c, n, i, j)
            ELSE f.v[c][i][j])])])

-----------------------------------------------------------------------------
TStep(ws, e, o) ==
    LET a == e.a
        t == ws[e.s]
        d == Dst(e)
        put(g) == Done(Put(ws, d, g), <<>>)
        out(g) == Done(Put(ws, e.d, g), <<>>)
        win(w, ax) == IF w = <<>> THEN <<ax[1], ax[Len(ax)]>> ELSE w
        iwin(w, n) == IF w = <<>> THEN <<0, n>> ELSE w
    IN
    CASE e.op = "new" -> out(TEmpty(a.nc))
      [] e.op = "mkt" -> \* a.fs: the fields as given, a.times: when
          LET mk(p) == Create(p.nc, p.ax, p.ay, p.v, p.mask, p.ux, p.uy, p.uv)
              F[n \in 0..Len(a.fs)] ==
                  IF n = 0 THEN TEmpty(a.nc) ELSE AddField(F[n - 1], mk(a.fs[n]), a.times[n], a.u)
          IN  out(TLCEval(F[Len(a.fs)]))
      [] e.op = "addf" -> LET f == ws[e.t] IN
          Guard(ws, AddFieldErr(t, f), Done(Put(ws, e.s, AddField(t, f, a.time, a.u)), <<>>))
      [] e.op = "rmf" -> Done(Put(ws, e.s, [t EXCEPT !.ts = Drop(t.ts, a.ids), !.fs = Drop(t.fs, a.ids)]), <<>>)
      [] e.op = "field" -> out(t.fs[a.n + 1])
      [] e.op = "copy" -> out(t)
      [] e.op = "settimes" -> Guard(ws, Len(a.ts) # NT(t), Done(Put(ws, e.s, [t EXCEPT !.ts = a.ts]), <<>>))
      [] e.op = "setunit" ->
          Done(Put(ws, e.s, CASE a.axe = "time" -> [t EXCEPT !.ut = a.u]
                              [] a.axe = "x" -> TMap(t, LAMBDA f : [f EXCEPT !.ux = a.u])
                              [] a.axe = "y" -> TMap(t, LAMBDA f : [f EXCEPT !.uy = a.u])), <<>>)
      [] e.op = "setax" ->
          Done(Put(ws, e.s, TMap(t, LAMBDA f : IF a.axe = "x" THEN [f EXCEPT !.ax = a.ax]
                                               ELSE [f EXCEPT !.ay = a.ax])), <<>>)
      [] e.op = "eq" -> Done(ws, <<t = ws[e.t]>>)
      [] e.op = "iter" -> Done(ws, [n \in 1..NT(t) |-> <<t.ts[n], t.fs[n].v[1][1][1]>>])
      [] e.op = "comp" -> out(TComp(t, a.c))
      \* ---- in space
      [] e.op = "crop" ->
          IF a.mode = "ind"
          THEN LET wx == iwin(a.wx, Len(t.ax))
                   wy == iwin(a.wy, Len(t.ay))
                   wt == iwin(a.wt, NT(t))
               IN  Guard(ws, CropIndErr(wx) \/ CropIndErr(wy) \/ CropIndErr(wt),
                         put(TMap(CropTI(t, wt[1], wt[2]), LAMBDA f : CropInd(f, wx, wy))))
          ELSE LET wx == win(a.wx, t.ax)
                   wy == win(a.wy, t.ay)
                   wt == win(a.wt, t.ts)
               IN  Guard(ws, \/ CropErr(t.ax, wx[1], wx[2]) \/ CropErr(t.ay, wy[1], wy[2])
                             \/ QLt(wt[2], t.ts[1]) \/ QLt(t.ts[NT(t)], wt[1]),
                         put(TMap(CropT(t, wt[1], wt[2]), LAMBDA f : CropVal(f, wx, wy))))
      [] e.op = "cropb" -> put(TCropBorder(t, a.hard))
      [] e.op = "extend" -> put(TMap(t, LAMBDA f : Extend(f, a.l, a.r, a.u, a.d, M)))
      [] e.op = "rotate" -> Guard(ws, a.angle % 90 # 0, put(TMap(t, LAMBDA f : Rotate(f, a.angle))))
      [] e.op = "mirror" -> put(TMap(t, LAMBDA f : Mirror(f, a.dir, a.pos, a.n, a.coef)))
      [] e.op = "scale" ->
          LET g == TMap(t, LAMBDA f : Scale(f, a.sx, a.sy, a.sv))
          IN  Phys(put([g EXCEPT !.ts = ScaleSeq(t.ts, a.st[1]), !.ut = UMul(t.ut, a.st[2])]))
      [] e.op = "unit" ->
          IF a.axe = "time"
          THEN Guard(ws, ~UCompat(t.ut, a.u),
                     Done(Put(ws, e.s, [t EXCEPT !.ts = ScaleSeq(t.ts, UFact(t.ut, a.u)), !.ut = a.u]), <<>>))
          ELSE Guard(ws, ~UCompat(UnitOf(t.fs[1], a.axe), a.u),
                     Done(Put(ws, e.s, TMap(t, LAMBDA f : ChangeUnit(f, a.axe, a.u))), <<>>))
      [] e.op = "origin" -> Done(Put(ws, e.s, TMap(t, LAMBDA f : Origin(f, a.x, a.y))), <<>>)
      [] e.op = "reduce" -> put(TMap(t, LAMBDA f : ReduceSp(f, a.fact)))
      [] e.op = "smooth" -> put(TMap(t, LAMBDA f : Uniform(f, a.size)))
      [] e.op = "even" -> Done(Put(ws, e.s, TMap(t, LAMBDA f : Even(f, a.res))), <<>>)
      [] e.op = "fillv" ->
          put(TMap(IF a.crop THEN TCropBorder(t, FALSE) ELSE t, LAMBDA f : FillValue(f, a.val)))
      [] e.op = "fills" -> \* nearest or linear, field by field
          LET g == o[d] IN
          Rel(Put(ws, d, g),
              /\ g.k = "T" /\ g.nc = t.nc /\ g.ts = t.ts /\ g.ut = t.ut /\ NT(g) = NT(t)
              /\ g.ax = t.ax /\ g.ay = t.ay /\ g.ux = t.ux /\ g.uy = t.uy
              /\ \A n \in 1..NT(t) :
                   IF ~AnyMasked(t.fs[n]) THEN g.fs[n] = t.fs[n]
                   ELSE IF a.kind = "nearest" THEN FillNearestOK(t.fs[n], g.fs[n])
                   ELSE FillLinearOK(t.fs[n], g.fs[n], <<>>), <<>>)
      \* ---- arithmetic
      [] e.op = "addfield" -> LET g == ws[e.t] IN
          Guard(ws, AddErr(t.fs[1], g), out(TMap(t, LAMBDA f : AddF(f, g, IF a.sub THEN -1 ELSE 1))))
      [] e.op = "addt" -> \* same times: field by field; else all the fields together
          LET u == ws[e.t]
              s == IF a.sub THEN -1 ELSE 1
              same == SameTimes(t, u)
          IN  IF same
              THEN Guard(ws, \E n \in 1..NT(t) : AddErr(t.fs[n], u.fs[n]),
                         out(TMapN(t, LAMBDA n, f : AddF(f, u.fs[n], s))))
              ELSE Guard(ws, u.ax # t.ax \/ u.ay # t.ay,
                         out(AddAll(t, IF a.sub THEN TMap(u, Neg) ELSE u, 1)))
      [] e.op = "addq" ->
          Guard(ws, a.kind = "unum" /\ ~UCompat(t.fs[1].uv, a.u),
             LET k(f) == IF a.kind = "unum" THEN UFact(a.u, f.uv) ELSE One
             IN  out(TMap(t, LAMBDA f : AddQ(f, [c \in 1..f.nc |-> QMul(k(f), a.q[1])]))))
      [] e.op = "neg" -> out(TMap(t, Neg))
      [] e.op = "mulq" -> Phys(out(TMap(t, LAMBDA f : MulQ(f, a.q[1], a.u))))
      [] e.op = "divq" -> Phys(out(TMap(t, LAMBDA f : MulQ(f, QInv(a.q[1]), UInv(a.u)))))
      [] e.op \in {"mult", "divt"} ->
          LET u == ws[e.t] IN
          Guard(ws, ~SameTimes(t, u) \/ u.ax # t.ax \/ u.ay # t.ay,
                Phys(out(TMapN(t, LAMBDA n, f : IF e.op = "mult" THEN MulF(f, u.fs[n]) ELSE DivF(f, u.fs[n])))))
      [] e.op = "divfield" -> LET g == ws[e.t] IN
          Guard(ws, MulErr(t.fs[1], g), Phys(out(TMap(t, LAMBDA f : DivF(f, g)))))
      [] e.op = "pow" -> Phys(out(TMap(t, LAMBDA f : PowF(f, a.n))))
      \* ---- statistics
      [] e.op = "mean" -> out(TMean(t, a.n))
      [] e.op = "min" -> out(TStat(t, a.n, QMinSeq))
      [] e.op = "max" -> out(TStat(t, a.n, QMaxSeq))
      [] e.op = "fluct" -> out(Fluct(t, a.n))
      [] e.op = "mke" -> Phys(out(Half2(TMean(t, 1))))
      [] e.op = "tke" -> Phys(out(Tke(t)))
      [] e.op = "meantke" -> Phys(out(TMean(Tke(t), 1)))
      [] e.op = "reynolds" -> Phys(out(Reynolds(t, a.n, a.i, a.j)))
      [] e.op = "cum" -> 
          LET m == Mat(Len(t.ax), Len(t.ay), LAMBDA i, j : CumMasked(t, i, j))
          IN  Done(ws, IF a.sf THEN <<m, t.ax, t.ay, t.ux, t.uy>> ELSE <<m>>)
      [] e.op = "recmap" -> \* values returned to the power a.p
          Done(ws, <<[m \in 1..NT(t) |-> [n \in 1..NT(t) |->
                IF m = n THEN Zero
                ELSE IF a.band > 0 /\ AbsI(m - n) > a.band THEN M ELSE RecDist(t, m, n, a.p)]],
                     t.ts, t.ts, t.ut, t.ut>>)
      [] e.op = "tprof" ->
          LET i == IF a.ind THEN a.x[1] ELSE Nearest(t.ax, a.x)
              j == IF a.ind THEN a.y[1] ELSE Nearest(t.ay, a.y)
              ids == IF a.wt = <<>> THEN Span(1, NT(t)) ELSE InWin(t.ts, a.wt[1], a.wt[2])
          IN  Guard(ws, IF a.ind THEN i < 0 \/ j < 0 \/ i >= Len(t.ax) \/ j >= Len(t.ay)
                        ELSE OutOf(t.ax, a.x) \/ OutOf(t.ay, a.y),
                    out(Prof(Pick(t.ts, ids),
                             [k \in 1..Len(ids) |-> t.fs[ids[k]].v[a.c][i + 1][j + 1]],
                             t.ut, t.fs[1].uv)))
      [] e.op = "tprofp" -> \* along points given with their times
          LET at(n) == {k \in 1..Len(a.pts) : a.pts[k][3] = t.ts[n]}
              ids == Idx(t.ts, LAMBDA n : at(n) # {} /\ (a.wt = <<>> \/ (QLe(a.wt[1], t.ts[n]) /\ QLe(t.ts[n], a.wt[2]))))
              val(n) == LET p == a.pts[SetMin(at(n))]
                        IN  t.fs[n].v[a.c][Nearest(t.ax, p[1]) + 1][Nearest(t.ay, p[2]) + 1]
          IN  out(Prof(Pick(t.ts, ids), [k \in 1..Len(ids) |-> val(ids[k])], t.ut, t.fs[1].uv))
      [] e.op = "inject" -> \* the values of a profile put at one point
          LET i == IF a.ind THEN a.x[1] ELSE Nearest(t.ax, a.x)
              j == IF a.ind THEN a.y[1] ELSE Nearest(t.ay, a.y)
              p == ws[e.t]
          IN  Guard(ws, Len(p.x) # NT(t),
                    Done(Put(ws, e.s, [t EXCEPT !.fs = [n \in 1..NT(t) |->
                             [t.fs[n] EXCEPT !.v[a.c][i + 1][j + 1] = p.y[n]]]]), <<>>))
      \* ---- in time
      [] e.op = "interp" -> Guard(ws, OutOf(t.ts, a.time), out(FieldAt(t, a.time)))
      [] e.op = "reducet" -> Guard(ws, a.n < 1 \/ (a.n > 1 /\ a.n >= NT(t)), put(ReduceT(t, a.n, a.mean)))
      [] e.op = "augt" -> put(AugmentT(t, a.fact))
      [] e.op = "fillt" -> put(FillT(t, a.kind, a.val))
=============================================================================
