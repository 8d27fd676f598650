------------------------------ MODULE CritSteps ------------------------------
(* Critical points of a flow at successive times, and their trajectories.    *)
(*   [k |-> "CP", ts, ut, ux, uy, kinds, traj]                               *)
(* kinds[c][n] is the set of points of kind c at time ts[n] (c: 1 focus,     *)
(* 2 focus turning the other way, 3 converging node, 4 diverging node,       *)
(* 5 saddle); traj is <<>> until trajectories are asked for, then traj[c] is *)
(* the sequence of trajectories of kind c, each a set of points whose values *)
(* are the times.                                                            *)
EXTENDS DeriveSteps

CKinds == 1..5
CN(t) == Len(t.ts)
HasTraj(t) == t.traj # <<>>
WFCrit(t) == /\ Len(t.kinds) = 5 /\ Len(t.traj) \in {0, 5} /\ Ascending(t.ts)
             /\ \A c \in CKinds : /\ Len(t.kinds[c]) = CN(t)
                                  /\ \A n \in 1..CN(t) : WFPts(t.kinds[c][n])
             /\ \A c \in 1..Len(t.traj) : \A i \in 1..Len(t.traj[c]) : WFPts(t.traj[c][i])
CNoTraj(t) == [t EXCEPT !.traj = <<>>]
MapSeq(s, G(_)) == TLCEval([i \in 1..Len(s) |-> G(s[i])])
CMapPts(t, G(_)) == [t EXCEPT !.kinds = MapSeq(t.kinds, LAMBDA k : MapSeq(k, G))]
CMapTraj(t, G(_)) == [t EXCEPT !.traj = MapSeq(t.traj, LAMBDA k : MapSeq(k, G))]
CMap(t, G(_)) == CMapTraj(CMapPts(t, G), G)
CSub(t, ids) == [t EXCEPT !.ts = Pick(t.ts, ids), !.kinds = MapSeq(t.kinds, LAMBDA k : Pick(k, ids))]
CSort(t) == CSub(t, SRank(t.ts))
SNone(ux, uy, uv) == [k |-> "S", xy |-> <<>>, v |-> <<>>, ux |-> ux, uy |-> uy, uv |-> uv]
CInsert(t, ps, time) ==
    LET at == 1 + Cardinality({i \in 1..CN(t) : QLt(t.ts[i], time)})
    IN  [CNoTraj(t) EXCEPT !.ts = InsertAt(t.ts, at, time),
                           !.kinds = TLCEval([c \in CKinds |-> InsertAt(t.kinds[c], at, ps[c])])]

-----------------------------------------------------------------------------
(* Trajectories: from one time to the next the nearest point goes to the     *)
(* nearest trajectory still open, pair after pair, as long as they are not   *)
(* further than eps (e2 its square, <<>> when there is no limit).  Where two *)
(* pairs compete at the same distance the choice is free ("tie").            *)
Dist2(p, q) == QAdd(QMul(QSub(p[1], q[1]), QSub(p[1], q[1])), QMul(QSub(p[2], q[2]), QSub(p[2], q[2])))
RECURSIVE Greedy(_, _, _, _)
Greedy(ends, pts, pairs, acc) == \* acc = <<pairs matched, tie>>
    IF pairs = {} THEN acc ELSE
    LET d(p) == Dist2(ends[p[1]], pts[p[2]])
        best == TLCEval({p \in pairs : \A q \in pairs : QLe(d(p), d(q))})
        b == CHOOSE p \in best : TRUE
    IN  Greedy(ends, pts, TLCEval({p \in pairs : p[1] # b[1] /\ p[2] # b[2]}),
               TLCEval(<<acc[1] \cup {b}, acc[2] \/ \E p \in best : p # b /\ (p[1] = b[1] \/ p[2] = b[2])>>))
RECURSIVE Lines(_, _, _, _, _, _)
Lines(n, ts, pss, e2, open, acc) == \* acc = <<closed lines, tie>>; a line is a sequence of <<time, xy>>
    IF n > Len(ts) THEN <<acc[1] \cup Range1(open), acc[2] \/ Cardinality(Range1(open)) # Len(open)>> ELSE
    LET pts == pss[n].xy
        ends == [i \in 1..Len(open) |-> open[i][Len(open[i])][2]]
        m == TLCEval(Greedy(ends, pts, {p \in (1..Len(open)) \X (1..Len(pts)) :
                                            e2 = <<>> \/ QLe(Dist2(ends[p[1]], pts[p[2]]), e2)}, <<{}, FALSE>>))
        goes == Idx(open, LAMBDA i : \E p \in m[1] : p[1] = i)
        new == Idx(pts, LAMBDA j : \A p \in m[1] : p[2] # j)
        to(i) == (CHOOSE p \in m[1] : p[1] = i)[2]
        nopen == [k \in 1..Len(goes) |-> Append(open[goes[k]], <<ts[n], pts[to(goes[k])]>>)]
                 \o [k \in 1..Len(new) |-> <<<<ts[n], pts[new[k]]>>>>]
        shut == {open[i] : i \in {j \in 1..Len(open) : \A p \in m[1] : p[1] # j}}
    IN  Lines(n + 1, ts, pss, e2, TLCEval(nopen),
              TLCEval(<<acc[1] \cup shut, acc[2] \/ m[2] \/ Cardinality(Range1(pts)) # Len(pts)>>))
CLines(t, c, e2) == Lines(1, t.ts, t.kinds[c], e2, <<>>, <<{}, FALSE>>)
CTrajUnit(t, c) == LET s == Idx(t.kinds[c], LAMBDA n : SN(t.kinds[c][n]) > 0)
                   IN  IF s = <<>> THEN t.ut ELSE t.kinds[c][s[1]].uv
AsPts(l, ux, uy, uv) == [k |-> "S", xy |-> [i \in 1..Len(l) |-> l[i][2]], v |-> [i \in 1..Len(l) |-> l[i][1]],
                         ux |-> ux, uy |-> uy, uv |-> uv]
AsLine(p) == [i \in 1..SN(p) |-> <<p.v[i], p.xy[i]>>]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
\* the longest first
Longest(ls) == LET ns == {Len(l) : l \in ls}
                   top == IF ns = {} THEN 0 ELSE SetMax(ns)
                   f[n \in 0..top] == IF n = 0 THEN <<>> ELSE ToSeq({l \in ls : Len(l) = n}) \o f[n - 1]
               IN  f[top]
CTrajOf(t, c, ls) == LET s == TLCEval(Longest(ls))
                     IN  [i \in 1..Len(s) |-> AsPts(s[i], t.ux, t.uy, CTrajUnit(t, c))]
IsTraj(t, c, l, tr) == \* tr is made of the lines l[1], or at least follows the points when ties left a choice
    /\ \A i \in 1..Len(tr) : WFPts(tr[i]) /\ HasV(tr[i]) /\ <<tr[i].ux, tr[i].uy, tr[i].uv>> = <<t.ux, t.uy, CTrajUnit(t, c)>>
    /\ \A i \in 1..(Len(tr) - 1) : SN(tr[i]) >= SN(tr[i + 1])
    /\ l[2] \/ ({AsLine(tr[i]) : i \in 1..Len(tr)} = l[1] /\ Len(tr) = Cardinality(l[1]))
CTimed(t) == [t EXCEPT !.kinds = TLCEval([c \in CKinds |-> [n \in 1..CN(t) |->
                 [t.kinds[c][n] EXCEPT !.v = [i \in 1..SN(t.kinds[c][n]) |-> t.ts[n]]]]])]
RECURSIVE AllPts(_)
AllPts(s) == IF s = <<>> THEN <<>> ELSE AsLine(s[1]) \o AllPts(Tail(s))
CClean(t, min) ==
    LET tr == TLCEval([c \in CKinds |-> SelectSeq(t.traj[c], LAMBDA p : SN(p) >= min)])
        at(c, n) == AsPts(SelectSeq(AllPts(tr[c]), LAMBDA x : x[1] = t.ts[n]), t.ux, t.uy,
                          IF tr[c] = <<>> THEN t.ut ELSE tr[c][1].uv)
    IN  [t EXCEPT !.traj = tr, !.kinds = TLCEval([c \in CKinds |-> [n \in 1..CN(t) |-> at(c, n)]])]
CCropT(t, ids) ==
    LET g == CSub(t, ids)
    IN  IF ids = <<>> THEN CNoTraj(g) ELSE IF ~HasTraj(t) THEN g
        ELSE [g EXCEPT !.traj = MapSeq(t.traj, LAMBDA k :
                 SelectSeq(MapSeq(k, LAMBDA p : SCrop(p, <<>>, <<>>, <<g.ts[1], g.ts[CN(g)]>>)), LAMBDA p : SN(p) > 0))]

-----------------------------------------------------------------------------
(* Topological simplification: points closer than d are merged at their      *)
(* centre of mass, the nearest first ("replacement"), or pairs of opposite   *)
(* index are deleted ("only_delete").  Saddles count -1, the others +1; what *)
(* amounts to a uniform flow (0) disappears.                                 *)
TopoItems(t, n) ==
    LET of(c) == LET p == t.kinds[c][n] IN
                 [i \in 1..SN(p) |-> [xy |-> p.xy[i], ty |-> <<c>>, w |-> 1, pbi |-> IF c = 5 THEN -1 ELSE 1]]
    IN  of(1) \o of(2) \o of(5) \o of(3) \o of(4)
Pairs(s) == {p \in (1..Len(s)) \X (1..Len(s)) : p[1] < p[2]}
Without(s, ids) == Pick(s, SelectSeq(Span(1, Len(s)), LAMBDA i : i \notin ids))
RECURSIVE TopoMerge(_, _)
TopoMerge(s, d2) == \* <<items, tie>>
    LET d(p) == Dist2(s[p[1]].xy, s[p[2]].xy)
        near == TLCEval({p \in Pairs(s) : QLe(d(p), d2)})
        best == TLCEval({p \in near : \A q \in near : QLe(d(p), d(q))})
        b == CHOOSE p \in best : TRUE
        x == s[b[1]]
        y == s[b[2]]
        mid(k) == QDiv(QAdd(QMul(x.xy[k], R(x.w)), QMul(y.xy[k], R(y.w))), R(x.w + y.w))
        z == [xy |-> <<mid(1), mid(2)>>, ty |-> x.ty \o y.ty, w |-> x.w + y.w, pbi |-> x.pbi + y.pbi]
    IN  IF near = {} THEN <<s, FALSE>> ELSE IF Cardinality(best) > 1 THEN <<s, TRUE>>
        ELSE TopoMerge(TLCEval(Without([s EXCEPT ![b[1]] = z], {b[2]})), d2)
RECURSIVE TopoDelete(_, _, _, _)
TopoDelete(s, near, gone, tie) ==
    LET d(p) == Dist2(s[p[1]].xy, s[p[2]].xy)
        best == TLCEval({p \in near : \A q \in near : QLe(d(p), d(q))})
        b == CHOOSE p \in best : TRUE
    IN  IF near = {} THEN <<Without(s, gone), tie>> ELSE IF Cardinality(best) > 1 THEN <<s, TRUE>>
        ELSE IF s[b[1]].pbi + s[b[2]].pbi = 0
             THEN TopoDelete(s, TLCEval({p \in near : {p[1], p[2]} \cap {b[1], b[2]} = {}}), gone \cup {b[1], b[2]}, tie)
             ELSE TopoDelete(s, TLCEval(near \ {b}), gone, tie)
TopoType(z) ==
    LET count(c) == Cardinality({i \in 1..Len(z.ty) : z.ty[i] = c})
        most == {c \in 1..4 : \A b \in 1..4 : count(c) >= count(b)}
    IN  IF Len(z.ty) = 1 THEN z.ty[1] ELSE IF z.pbi = -1 THEN 5 ELSE IF z.pbi = 1 THEN SetMin(most) ELSE 0
CTopoAt(t, n, d2, kind) ==
    LET s == TopoItems(t, n)
        r == IF kind = "replacement" THEN TopoMerge(s, d2)
             ELSE TopoDelete(s, {p \in Pairs(s) : QLe(Dist2(s[p[1]].xy, s[p[2]].xy), d2)}, {}, FALSE)
        left == SelectSeq(r[1], LAMBDA z : z.pbi # 0)
        of(c) == SelectSeq(left, LAMBDA z : TopoType(z) = c)
    IN  <<[c \in CKinds |-> LET l == TLCEval(of(c)) IN
              [k |-> "S", xy |-> [i \in 1..Len(l) |-> l[i].xy], v |-> [i \in 1..Len(l) |-> t.ts[n]],
               ux |-> t.ux, uy |-> t.uy, uv |-> t.ut]], r[2]>>

-----------------------------------------------------------------------------
(* Detection: a cell of the grid holds a critical point when the velocities  *)
(* at its corners, taken in turn, wind around zero.  Against the turn it is  *)
(* a saddle; otherwise the mean Jacobian of the cell tells a focus (and the  *)
(* way it turns) from a node (diverging or converging).  With a null         *)
(* velocity at a corner, or opposite velocities at two neighbouring ones, the *)
(* zero is on the border and any cell sharing it may hold it; a singular or  *)
(* degenerate Jacobian leaves open which focus or node it is.                *)
CCorners(f, i, j) == LET at(a, b) == <<f.v[1][a][b], f.v[2][a][b]>>
                     IN  <<at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)>>
CCross(v, w) == QSub(QMul(v[1], w[2]), QMul(v[2], w[1]))
CDot(v, w) == QAdd(QMul(v[1], w[1]), QMul(v[2], w[2]))
CNeg(q) == QLt(q, Zero)
CPos(q) == QLt(Zero, q)
CTurn(v, w) == \* passages through the half-line x > 0, y = 0
    IF CNeg(v[2]) /\ ~CNeg(w[2]) /\ CPos(CCross(v, w)) THEN 1
    ELSE IF ~CNeg(v[2]) /\ CNeg(w[2]) /\ CNeg(CCross(v, w)) THEN -1 ELSE 0
CNext(k) == (k % 4) + 1
CUnclear(c) == \E k \in 1..4 : /\ CCross(c[k], c[CNext(k)]) = Zero
                                /\ ~CPos(CDot(c[k], c[CNext(k)]))
CWind(c) == CTurn(c[1], c[2]) + CTurn(c[2], c[3]) + CTurn(c[3], c[4]) + CTurn(c[4], c[1])
CJac(f, c, i, j) ==
    LET dx == QSub(f.ax[i + 1], f.ax[i])
        dy == QSub(f.ay[j + 1], f.ay[j])
        ddx(k) == QDiv(QHalf(QSub(QAdd(c[2][k], c[3][k]), QAdd(c[1][k], c[4][k]))), dx)
        ddy(k) == QDiv(QHalf(QSub(QAdd(c[3][k], c[4][k]), QAdd(c[1][k], c[2][k]))), dy)
    IN  <<ddx(1), ddy(1), ddx(2), ddy(2)>>
\* the kinds of critical points cell (i, j) may hold; 0 for none
CCell(f, i, j) ==
    LET c == TLCEval(CCorners(f, i, j))
        w == CWind(c)
        J == TLCEval(CJac(f, c, i, j))
        tr == QAdd(J[1], J[4])
        det == QSub(QMul(J[1], J[4]), QMul(J[2], J[3]))
        disc == QSub(QMul(tr, tr), QMul(R(4), det))
    IN  IF w = 0 THEN {0} ELSE IF w = -1 THEN {5}
        ELSE IF ~CPos(det) \/ disc = Zero THEN 1..4
        ELSE IF CNeg(disc) THEN (IF CNeg(J[3]) THEN {2} ELSE {1})
        ELSE IF CNeg(tr) THEN {3} ELSE {4}
\* found[c] the cells <<i, j>> of the points of kind c, and whether they are where the velocity is null
CFound(f, found) ==
    \A i \in 1..(Len(f.ax) - 1) : \A j \in 1..(Len(f.ay) - 1) :
        LET ks == CCell(f, i, j)
            here == {<<c, n>> \in UNION {{<<c, n>> : n \in 1..Len(found[c])} : c \in CKinds} : found[c][n][1] = R(i) /\ found[c][n][2] = R(j)}
        IN  CUnclear(CCorners(f, i, j)) \/ IF here = {} THEN 0 \in ks ELSE Cardinality(here) = 1 /\ \A h \in here : h[1] \in ks /\ found[h[1]][h[2]][3] = TRUE
CMasked(t) == \E f \in (IF t.k = "T" THEN {t.fs[z] : z \in 1..Len(t.fs)} ELSE {t}) :
    \E i \in 1..Len(f.ax) : \E j \in 1..Len(f.ay) : f.v[1][i][j] = M
CIn(f, found) == \A c \in CKinds : \A n \in 1..Len(found[c]) :
    \E i \in 1..(Len(f.ax) - 1) : \E j \in 1..(Len(f.ay) - 1) : found[c][n][1] = R(i) /\ found[c][n][2] = R(j)

-----------------------------------------------------------------------------
CPStep(ws, e, o) ==
    LET a == e.a
        t == ws[e.s]
        d == Dst(e)
        n == IF e.op \in {"detect", "smoothed"} THEN 0 ELSE CN(t)
        put(g) == Done(Put(ws, d, g), <<>>)
        out(g) == Done(Put(ws, e.d, g), <<>>)
        self(g) == Done(Put(ws, e.s, g), <<>>)
        ret(x) == Done(ws, x)
    IN
    CASE e.op = "new" -> out([k |-> "CP", ts |-> <<>>, ut |-> a.u, ux |-> UNone, uy |-> UNone,
                              kinds |-> [c \in CKinds |-> <<>>], traj |-> <<>>])
      [] e.op = "add" ->
          LET given == {c \in CKinds : a.p[c] # 0}
              first == ws[a.p[SetMin(given)]]
              ux == IF n = 0 /\ given # {} THEN first.ux ELSE t.ux
              uy == IF n = 0 /\ given # {} THEN first.uy ELSE t.uy
              ps == [c \in CKinds |-> IF a.p[c] = 0 THEN SNone(ux, uy, t.ut) ELSE ws[a.p[c]]]
          IN  Guard(ws, a.time \in Range1(t.ts) \/ \E c \in CKinds : ps[c].ux # ux \/ ps[c].uy # uy,
                    self([CInsert(t, ps, a.time) EXCEPT !.ux = ux, !.uy = uy]))
      [] e.op = "rm" ->
          LET ids == IF a.ind THEN {a.i + 1} ELSE {i \in 1..n : t.ts[i] = a.time}
          IN  Guard(ws, ids = {} \/ \E i \in ids : i > n,
                    self(CNoTraj(CSub(t, SelectSeq(Span(1, n), LAMBDA i : i \notin ids)))))
      [] e.op = "cat" ->
          LET r == ws[e.t] IN
          IF CN(r) = 0 THEN out(t) ELSE IF n = 0 THEN out(r)
          ELSE Guard(ws, \/ t.ut # r.ut \/ t.ux # r.ux \/ t.uy # r.uy \/ Range1(t.ts) \cap Range1(r.ts) # {},
                     out(CSort(CNoTraj([t EXCEPT !.ts = t.ts \o r.ts, !.kinds = [c \in CKinds |-> t.kinds[c] \o r.kinds[c]]]))))
      [] e.op = "copy" -> out(t)
      [] e.op = "eq" -> ret(<<t = ws[e.t]>>)
      [] e.op = "get" -> out(t.kinds[a.c][a.i + 1])
      [] e.op = "gettraj" -> out(t.traj[a.c][a.i + 1])
      [] e.op = "traj" ->
          LET l == TLCEval([c \in CKinds |-> CLines(t, c, IF a.eps = <<>> THEN <<>> ELSE QMul(a.eps[1], a.eps[1]))])
              good == /\ o[e.s].k = "CP" /\ Len(o[e.s].traj) = 5
                      /\ \A c \in CKinds : IsTraj(t, c, l[c], o[e.s].traj[c])
              g == CTimed(t)
          IN  Rel(Put(ws, e.s, [g EXCEPT !.traj = IF good THEN o[e.s].traj
                                                  ELSE TLCEval([c \in CKinds |-> CTrajOf(t, c, l[c][1])])]), good, <<>>)
      [] e.op = "clean" -> Guard(ws, ~HasTraj(t), self(CClean(t, a.min)))
      [] e.op = "smooth" -> Guard(ws, ~HasTraj(t), self(CMapTraj(t, LAMBDA p : SSmooth(p, a.size))))
      [] e.op = "crop" ->
          LET ids == IF a.wi # <<>> THEN Span(a.wi[1] + 1, IF a.wi[2] > n THEN n ELSE a.wi[2])
                     ELSE Idx(t.ts, LAMBDA i : InI(t.ts[i], a.wt))
              g == IF a.wi = <<>> /\ a.wt = <<>> THEN t ELSE CCropT(t, ids)
          IN  put(IF a.wx = <<>> /\ a.wy = <<>> THEN g ELSE CNoTraj(CMapPts(g, LAMBDA p : SCrop(p, a.wx, a.wy, <<>>))))
      [] e.op = "scale" ->
          Phys(put([CMap(t, LAMBDA p : SScale(p, a.sx, a.sy, a.sv)) EXCEPT
               !.ts = ScaleSeq(t.ts, a.sv[1]), !.ut = UMul(t.ut, a.sv[2]),
               !.ux = UMul(t.ux, a.sx[2]), !.uy = UMul(t.uy, a.sy[2])]))
      [] e.op = "unit" ->
          LET u == CASE a.axe = "x" -> t.ux [] a.axe = "y" -> t.uy [] a.axe = "time" -> t.ut
              g == CMap(t, LAMBDA p : SToUnit(p, IF a.axe = "time" THEN "v" ELSE a.axe, a.u))
          IN  Guard(ws, ~UCompat(u, a.u),
                    self(CASE a.axe = "x" -> [g EXCEPT !.ux = a.u] [] a.axe = "y" -> [g EXCEPT !.uy = a.u]
                           [] a.axe = "time" -> [g EXCEPT !.ut = a.u, !.ts = ScaleSeq(t.ts, UFact(t.ut, a.u))]))
      [] e.op = "origin" -> self(CMap(t, LAMBDA p : SMapXY(p, LAMBDA x, y : <<QSub(x, a.x), QSub(y, a.y)>>)))
      [] e.op = "detect" -> \* ret: the units, whether all points are inside and have them, and <<time, cells>> for each field
          LET fs == IF t.k = "T" THEN t.fs ELSE <<t>>
              ts == IF t.k = "T" THEN t.ts ELSE <<a.time>>
              u == IF t.k = "T" THEN t.ut ELSE a.u
              r == e.ret
              good == /\ Len(r) = 3 /\ r[1] = <<u, t.ux, t.uy>> /\ r[2] = TRUE /\ Len(r[3]) = Len(fs)
                      /\ \A z \in 1..Len(fs) : r[3][z][1] = ts[z] /\ CFound(fs[z], r[3][z][2]) /\ CIn(fs[z], r[3][z][2])
          IN  Guard(ws, CMasked(t), Rel(ws, good, e.ret))
      [] e.op = "smoothed" -> \* what is found depends on the smoothing, but the field never changes
          Guard(ws, CMasked(t), Rel(ws, TRUE, e.ret))
      [] e.op = "topo" ->
          LET r == TLCEval([i \in 1..n |-> CTopoAt(t, i, QMul(a.d, a.d), a.kind)])
              g == [t EXCEPT !.kinds = TLCEval([c \in CKinds |-> [i \in 1..n |-> r[i][1][c]]]), !.traj = <<>>]
          IN  IF \E i \in 1..n : r[i][2] THEN Rel(Put(ws, e.d, o[e.d]), TRUE, <<>>) ELSE out(g)
=============================================================================
