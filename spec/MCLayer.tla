------------------------------- MODULE MCLayer -------------------------------
(* Small-scope exploration of the boundary layers: every profile of up to    *)
(* MaxPts points with velocities up to MaxY (or masked), at the wall or not. *)
EXTENDS IMT, Json, IOUtils

CONSTANTS MaxPts, MaxY

VARIABLES ws, hist
vars == <<ws, hist>>
NS == 6
Blank == [i \in 1..NS |-> Empty]
mm == <<-3, 1, 0, 0, 0, 0, 0>>
v1 == <<0, 1, -1, 0, 0, 0, 0>>
Ev(m, op, s, t, d, ip, a) == [m |-> m, op |-> op, s |-> s, t |-> t, d |-> d, ip |-> ip, a |-> a]
Run(w, e) == Step(w, e @@ [ret |-> <<>>], w)
Xs(n, x0, h) == [i \in 1..n |-> R(IF i = 1 THEN x0 ELSE x0 + h * (i - 1))]
Init == \E n \in 2..MaxPts : \E x0 \in {0, 1}, h \in {1, 2} :
        \E y \in [1..n -> 0..MaxY], k \in [1..n -> {FALSE, TRUE}] :
    LET e == Ev("p", "mk", 0, 0, 1, FALSE, [x |-> Xs(n, x0, h), y |-> [i \in 1..n |-> R(y[i])], mask |-> k, ux |-> mm, uy |-> v1])
    IN  hist = <<e>> /\ ws = Run(Blank, e).ws
P == ws[1]
Top(p) == QMaxSeq(Pick(p.y, PValid(p)))
\* the layer has an edge, and something moves in it
Clear(p, part) == PValid(p) # <<>> => /\ QLt(Zero, Top(p))
                                      /\ \A i \in 1..PN(p) : p.y[i] # QMul(part, Top(p))
                                      /\ PCross(p.x, p.y, QMul(part, Top(p))) # <<>>
Moves(p) == Clear(p, LPart) /\ (LIn(p).x # <<>> => QLt(Zero, QMaxSeq(LIn(p).y)))
Can(op, part) == CASE op = "thick" -> Clear(P, part)
                   [] op = "shape" -> Moves(P) /\ QLt(Zero, LMom(P))
                   [] OTHER -> Moves(P)
Next ==
    /\ Len(hist) = 1
    /\ \E op \in {"thick", "displ", "mom", "shape"}, part \in {LPart, <<1, 2>>} :
         /\ op = "thick" \/ part = LPart
         /\ Can(op, part)
         /\ hist' = Append(hist, Ev("bl", op, 1, 0, 0, FALSE, [perc |-> part, dir |-> 1]))
         /\ ws' = ws
         /\ PrintT("PROG " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
WellFormed == \A i \in 1..NS : WFObj(ws[i])
Faster(p) == PMap(p, LAMBDA y : QMul(R(3), y))
Wider(p) == [p EXCEPT !.x = ScaleSeq(p.x, R(2))]
\* no thickness depends on the unit of velocity, all are proportional to that of length; 0 <= momentum <= displacement <= thickness
LayerLaws(p) ==
    /\ LET d == LDispl(p) th == LThick(p, LPart) m == LMom(p) IN
       /\ QLe(Zero, m) /\ QLe(m, d) /\ QLe(d, th)
       /\ LDispl(Faster(p)) = d /\ LMom(Faster(p)) = m /\ LThick(Faster(p), LPart) = th
       /\ LDispl(Wider(p)) = QMul(R(2), d) /\ LMom(Wider(p)) = QMul(R(2), m) /\ LThick(Wider(p), LPart) = QMul(R(2), th)
Laws == Moves(P) => LayerLaws(P)
=============================================================================
