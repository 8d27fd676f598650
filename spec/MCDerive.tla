------------------------------ MODULE MCDerive ------------------------------
(* Small-scope exploration of the derivatives: every small scalar field with *)
(* every mask ("grad"), every small vector field ("crit"), and every         *)
(* arrangement of a few velocities around a point ("ring").                  *)
EXTENDS IMT, Json, IOUtils

CONSTANTS Mix, Rich

VARIABLES ws, hist
vars == <<ws, hist>>
NS == 6
Blank == [i \in 1..NS |-> Empty]
mm == <<-3, 1, 0, 0, 0, 0, 0>>
m1 == <<0, 1, 0, 0, 0, 0, 0>>
ms == <<0, 1, -1, 0, 0, 0, 0>>
Ev(m, op, s, d, a) == [m |-> m, op |-> op, s |-> s, t |-> 0, d |-> d, ip |-> FALSE, a |-> a]
Run(w, e) == Step(w, e @@ [ret |-> <<>>], w)
Mk(nc, ax, ay, v, mask, ux, uv) ==
    Ev("f", "mk", 0, 1, [nc |-> nc, ax |-> ax, ay |-> ay, ux |-> ux, uy |-> ux, uv |-> uv, v |-> v, mask |-> mask])
Unroll(g, nx, ny) == [i \in 1..nx |-> [j \in 1..ny |-> g[(i - 1) * ny + j]]]
Off0(nx, ny) == [i \in 1..nx |-> [j \in 1..ny |-> FALSE]]
Axis(n, h) == [i \in 1..n |-> QMul(R(i - 1), h)]

\* a scalar field; the value 9 stands for a masked point
GradInit ==
    \E sz \in {<<2, 2>>, <<2, 3>>, <<3, 2>>} \cup (IF Rich > 1 THEN {<<4, 2>>} ELSE {}) :
    \E g \in [1..(sz[1] * sz[2]) -> IF sz[1] * sz[2] = 8 \/ Rich = 1 THEN {0, 2, 9} ELSE {0, 1, 3, 9}] : \E h \in {<<1, 2>>, R(3)} :
        /\ \E k \in DOMAIN g : g[k] # 9
        /\ LET e == Mk(1, Axis(sz[1], h), Axis(sz[2], R(2)),
                       <<Unroll([k \in DOMAIN g |-> IF g[k] = 9 THEN R(0) ELSE R(g[k])], sz[1], sz[2])>>,
                       Unroll([k \in DOMAIN g |-> g[k] = 9], sz[1], sz[2]), mm, m1)
           IN  hist = <<e>> /\ ws = Run(Blank, e).ws
\* a vector field, from the eight velocities of 2 x 2 points
CritInit ==
    \E g \in [1..8 -> IF Rich > 1 THEN {-1, 0, 2} ELSE {0, 2}] : \E h \in {R(1), R(2)} : \E m \in 0..1 :
        LET v(o) == <<<<R(g[o]), R(g[o + 1])>>, <<R(g[o + 2]), R(g[o + 3])>>, <<R(g[o]), R(-g[o + 1])>>>>
            e == Mk(2, Axis(3, h), Axis(2, R(1)), <<v(1), v(5)>>,
                    [i \in 1..3 |-> [j \in 1..2 |-> m = 1 /\ i = 1 /\ j = 1]], UNone, UNone)
        IN  hist = <<e>> /\ ws = Run(Blank, e).ws
Around8 == <<<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 3>>, <<3, 1>>, <<3, 2>>, <<3, 3>>>>
RingInit ==
    \E g \in [1..8 -> IF Rich > 1 THEN 1..3 ELSE 1..2] : \E q \in 1..2 :
        LET V == IF q = 1 THEN <<<<3, 4>>, <<-5, 0>>, <<0, 0>>>> ELSE <<<<0, 2>>, <<4, -3>>, <<-4, -3>>>>
            at(c, i, j) == IF i = 2 /\ j = 2 THEN R(1)
                           ELSE LET k == CHOOSE k \in 1..8 : Around8[k] = <<i, j>> IN R(V[g[k]][c])
            e == Mk(2, Axis(3, R(3)), Axis(3, R(4)),
                    [c \in 1..2 |-> [i \in 1..3 |-> [j \in 1..3 |-> at(c, i, j)]]], Off0(3, 3), mm, ms)
        IN  hist = <<e>> /\ ws = Run(Blank, e).ws
Init == CASE Mix = "grad" -> GradInit [] Mix = "crit" -> CritInit [] Mix = "ring" -> RingInit

F == ws[1]
Good(J) == LET disc == QSub(QSq(Tr(J)), QMul(R(4), Det(J))) IN disc # Zero \/ (J[2] = Zero /\ J[3] = Zero)
Js(f) == {JacAt(f, i, j) : i \in 1..NX(f), j \in 1..NY(f)} \ {JNone}
NoMask == [mask |-> <<>>]
Kinds(f) ==
    {"q"} \cup (IF \A J \in Js(f) : Shear2(J) # Zero THEN {"nk2"} ELSE {})
    \cup (IF \A J \in Js(f) : Good(J) THEN {"sw2"} ELSE {})
    \cup (IF (\A J \in Js(f) : Good(J)) /\ (\E J \in Js(f) : Im2(J) # Zero) THEN {"delta", "isw2"} ELSE {})
Calls(w) ==
    CASE Mix = "grad" ->
        {Ev("g", "grad", 1, 2, [k |-> k]) : k \in {1, 2}} \cup {Ev("g", "graw", 1, 0, [z |-> 0])}
      [] Mix = "crit" ->
        {Ev("g", "local", 1, 2, NoMask @@ [kind |-> k]) : k \in Kinds(w[1])}
        \cup {Ev("g", "div", 1, 2, [z |-> 0]), Ev("g", "track", 1, 2, [z |-> 0]), Ev("g", "stokes", 1, 2, [w |-> 2])}
        \cup (IF AnyMasked(w[1]) THEN {} ELSE {Ev("g", "vort", 1, 2, [z |-> 0]), Ev("g", "cdiv", 1, 2, [z |-> 0]),
                                               Ev("g", "kolar", 1, 0, [z |-> 0])})
      [] Mix = "ring" ->
        {Ev("g", "nl", 1, 2, NoMask @@ [kind |-> k, r |-> r, ind |-> TRUE]) : k \in {"gamma1", "kappa1"}, r \in {R(1), <<3, 2>>}}
        \cup {Ev("g", "nl", 1, 2, NoMask @@ [kind |-> "enst", r |-> <<19, 10>>, ind |-> TRUE])}
Next ==
    /\ Len(hist) = 1
    /\ \E e \in Calls(ws) :
         LET r == TLCEval(Run(ws, e)) IN
         /\ hist' = Append(hist, e)
         /\ ws' = r.ws
         /\ PrintT("PROG " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
WellFormed == \A i \in 1..NS : WFObj(ws[i])
Pair(f) == [f EXCEPT !.nc = 2, !.v = <<GradMat(f, 1), GradMat(f, 2)>>]
\* the gradient of a scalar has no vorticity; adding a constant changes no derivative
GradLaws == /\ ~AnyMasked(F) => \A i \in 1..NX(F) : \A j \in 1..NY(F) : Vort(Pair(F)).v[1][i][j] = Zero
            /\ GradMat(MapCells(F, LAMBDA c, i, j, x : QAdd(x, R(7))), 1) = GradMat(F, 1)
            \* masking points only masks derivatives
            /\ \A k \in {1, 2} : \A i \in 1..NX(F) : \A j \in 1..NY(F) :
                 GradMat(F, k)[i][j] \in {M, GradMat(FillValue(F, <<R(0)>>), k)[i][j]}
TrackOf(f) == [f EXCEPT !.v = <<Mat(NX(f), NY(f), LAMBDA i, j : QNeg(f.v[2][i][j])), f.v[1]>>]
CritLaws ==
    \A J \in Js(F) :
        /\ QCrit(J) = QSub(Det(J), QHalf(QSq(Tr(J))))
        \* a swirling point is one where rotation dominates
        /\ (Im2(J) # Zero => QLt(Zero, Det(J)))
        /\ QLe(QMin(Strain2(J), QSq(Omega(J))), QSq(Omega(J)))
DivLaws == ~AnyMasked(F) => \A i \in 1..NX(F) : \A j \in 1..NY(F) :
    Div2(TrackOf(F)).v[1][i][j] = QMul(R(-2), Vort(F).v[1][i][j])
RingLaws ==
    LET a(k, r) == NoMask @@ [kind |-> k, r |-> r, ind |-> TRUE]
        at(k, r) == NLCrit(F, a(k, r))[2][2]
        turned == TrackOf(F)
    IN  \A r \in {R(1), <<3, 2>>} :
        /\ QLe(QAbs(at("gamma1", r)), One) /\ QLe(QAbs(at("kappa1", r)), One)
        \* turning every velocity by a right angle exchanges swirl and divergence
        /\ NLCrit(turned, a("gamma1", r))[2][2] = at("kappa1", r)
Laws == CASE Mix = "grad" -> GradLaws
          [] Mix = "crit" -> CritLaws /\ DivLaws
          [] Mix = "ring" -> RingLaws
=============================================================================
