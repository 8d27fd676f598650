------------------------------ MODULE ZoneSteps ------------------------------
(* Zones and histograms of scalar fields.  A zone is a maximal set of valid  *)
(* grid points, neighbours of each other along the axes, with values between *)
(* two bounds; the bounds may be relative to the extrema of the field.       *)
EXTENDS LayerSteps

ZBounds(f, a) ==
    LET s == ValidSeq(f, 1)
        lo == QMinSeq(s)
        hi == QMaxSeq(s)
        gap == QSub(hi, lo)
        base == IF QLt(QAbs(a.b[2]), QAbs(a.b[1])) THEN hi ELSE lo
    IN  IF a.rel THEN <<QAdd(base, QMul(gap, a.b[1])), QAdd(base, QMul(gap, a.b[2]))>> ELSE a.b
ZCells(f, b) == {c \in (1..Len(f.ax)) \X (1..Len(f.ay)) :
                   LET q == f.v[1][c[1]][c[2]] IN q # M /\ QLe(b[1], q) /\ QLe(q, b[2])}
ZNext(c, d) == c[1] - d[1] \in {-1, 0, 1} /\ c[2] - d[2] \in {-1, 0, 1} /\ (c[1] = d[1] \/ c[2] = d[2])
RECURSIVE ZGrow(_, _)
ZGrow(S, A) == LET T == {c \in A : \E d \in S : ZNext(c, d)} IN IF T = S THEN S ELSE ZGrow(T, A)
Zones(A) == {TLCEval(ZGrow({c}, A)) : c \in A}
RECURSIVE ZSeq(_)
ZSeq(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<c>> \o ZSeq(S \ {c})
\* the coordinate of a fractional index
ZAt(ax, q) == LET k == QFloor(q) t == QSub(q, R(k)) IN
              IF t = Zero THEN ax[k] ELSE QAdd(ax[k], QMul(t, QSub(ax[k + 1], ax[k])))
ZCentre(f, Z, W(_)) ==
    LET s == ZSeq(Z)
        t == QSumSeq([n \in 1..Len(s) |-> W(s[n])])
        mid(k) == QDiv(QSumSeq([n \in 1..Len(s) |-> QMul(W(s[n]), R(s[n][k]))]), t)
    IN  <<ZAt(f.ax, mid(1)), ZAt(f.ay, mid(2))>>
ZVal(f, c) == f.v[1][c[1]][c[2]]
\* the places that stand for a zone: several only when its extremum is reached several times
ZPlaces(f, Z, kind, b) ==
    CASE kind = "center" -> {ZCentre(f, Z, LAMBDA c : One)}
      [] kind = "ponderated" -> {ZCentre(f, Z, LAMBDA c : QAbs(ZVal(f, c)))}
      [] kind = "extremum" ->
           LET big == IF QLt(QAbs(b[1]), QAbs(b[2])) THEN b[2] ELSE b[1]
               low == QLt(big, Zero)
           IN  {<<f.ax[c[1]], f.ay[c[2]]>> : c \in {d \in Z : \A g \in Z :
                   IF low THEN QLe(ZVal(f, d), ZVal(f, g)) ELSE QLe(ZVal(f, g), ZVal(f, d))}}
ZPts(f, l) == [k |-> "S", xy |-> l, v |-> <<>>, ux |-> f.ux, uy |-> f.uy, uv |-> UNone]
ZStep(ws, e, o) ==
    LET f == ws[e.s]
        a == e.a
    IN
    CASE e.op = "zones" ->
         LET b == TLCEval(ZBounds(f, a))
             zs == TLCEval(ZSeq(Zones(ZCells(f, b))))
             pl == TLCEval([n \in 1..Len(zs) |-> ZPlaces(f, zs[n], a.kind, b)])
             mine == [n \in 1..Len(zs) |-> CHOOSE p \in pl[n] : TRUE]
             got == IF o[e.d].k = "S" THEN o[e.d].xy ELSE <<>>
             good == /\ Len(got) = Len(zs)
                     /\ \A n \in 1..Len(zs) : Cardinality({m \in 1..Len(got) : got[m] \in pl[n]})
                                              = Cardinality({m \in 1..Len(zs) : pl[m] = pl[n]})
         IN  IF QLt(a.b[2], a.b[1]) \/ (a.rel /\ QLt(QMul(a.b[1], a.b[2]), Zero)) THEN Fail(ws)
             ELSE IF zs = <<>> THEN Done(ws, <<>>)
             ELSE Phys(Done(Put(ws, e.d, ZPts(f, IF good THEN got ELSE mine)), <<>>))
      [] e.op = "hist" ->
         LET s == ValidSeq(f, 1)
             m1 == QMinSeq(s)
             m2 == QMaxSeq(s)
             lim == IF a.range # <<>> THEN a.range ELSE IF m1 = m2 THEN <<QSub(m1, <<1, 2>>), QAdd(m2, <<1, 2>>)>> ELSE <<m1, m2>>
             w == QDiv(QSub(lim[2], lim[1]), R(a.bins))
             edge(i) == QAdd(lim[1], QMul(R(i), w))
             in(q, i) == QLe(edge(i - 1), q) /\ (IF i = a.bins THEN QLe(q, edge(i)) ELSE QLt(q, edge(i)))
             count == TLCEval([i \in 1..a.bins |-> R(Len(SelectSeq(s, LAMBDA q : in(q, i))))])
             dens == IF a.norm THEN TLCEval([i \in 1..a.bins |-> QDiv(count[i], QMul(w, QSumSeq(count)))]) ELSE count
         IN  Done(ws, <<[i \in 1..a.bins |-> QHalf(QAdd(edge(i - 1), edge(i)))],
                        [i \in 1..a.bins |-> IF a.cum THEN QSumSeq(SubSeq(dens, 1, i)) ELSE dens[i]],
                        f.uv>>)
=============================================================================
