----------------------------- MODULE LayerSteps -----------------------------
(* Boundary layers: the wall is at 0, a profile gives the velocity away from *)
(* it. The thickness is the first place where the velocity reaches a part of *)
(* its maximum; the displacement and momentum thicknesses integrate over the *)
(* valid points within the layer (19/20 of the maximum), from the wall,      *)
(* where the velocity is null when it is not given.                          *)
EXTENDS CritSteps

LPart == <<19, 20>>
LThick(p, part) ==
    LET v == PValid(p) IN
    IF v = <<>> THEN Zero ELSE PCross(p.x, p.y, QMul(part, QMaxSeq(Pick(p.y, v))))[1]
LIn(p) ==
    LET th == LThick(p, LPart)
        ids == Idx(p.x, LAMBDA i : p.y[i] # M /\ ~QLt(p.x[i], Zero) /\ ~QLt(th, p.x[i]))
        x == Pick(p.x, ids)
        y == Pick(p.y, ids)
    IN  IF th = Zero \/ ids = <<>> THEN [x |-> <<>>, y |-> <<>>]
        ELSE IF x[1] = Zero THEN [x |-> x, y |-> y]
        ELSE [x |-> <<Zero>> \o x, y |-> <<Zero>> \o y]
LDispl(p) ==
    LET g == TLCEval(LIn(p)) IN
    IF g.x = <<>> THEN Zero
    ELSE Trapz(g.x, [i \in 1..Len(g.y) |-> QSub(One, QDiv(g.y[i], QMaxSeq(g.y)))])
LMom(p) ==
    LET g == TLCEval(LIn(p)) IN
    IF g.x = <<>> THEN Zero
    ELSE LET m == QMaxSeq(g.y)
         IN  Trapz(g.x, [i \in 1..Len(g.y) |-> QMul(QDiv(g.y[i], m), QSub(One, QDiv(g.y[i], m)))])
LOf(p, op, a) == CASE op = "thick" -> LThick(p, a.perc)
                   [] op = "displ" -> LDispl(p)
                   [] op = "mom" -> LMom(p)
                   [] op = "shape" -> LET m == LMom(p) IN IF QLe(m, Zero) THEN M ELSE QDiv(LDispl(p), m)
\* the profile along y at the i-th x (1), or along x at the i-th y (2)
LLine(f, dir, i) == IF dir = 1 THEN Prof(f.ay, f.v[1][i], f.uy, f.uv)
                    ELSE Prof(f.ax, [k \in 1..Len(f.ax) |-> f.v[1][k][i]], f.ux, f.uv)
LStep(ws, e, o) ==
    LET f == ws[e.s] IN
    IF f.k = "P" THEN Done(ws, <<LOf(f, e.op, e.a)>>)
    ELSE LET axe == IF e.a.dir = 1 THEN f.ax ELSE f.ay
             us == IF e.a.dir = 1 THEN <<f.ux, f.uy>> ELSE <<f.uy, f.ux>>
         IN  Phys(Done(Put(ws, e.d, Prof(axe, TLCEval([i \in 1..Len(axe) |-> LOf(LLine(f, e.a.dir, i), e.op, e.a)]),
                                         us[1], IF e.op = "shape" THEN UNone ELSE us[2])), <<>>))
=============================================================================
