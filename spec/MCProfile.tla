------------------------------ MODULE MCProfile ------------------------------
(* Small-scope exploration of the calls on profiles: a few points on even    *)
(* and uneven axes, given in several orders, with every mask, then every     *)
(* call of a family.                                                         *)
EXTENDS IMT, Json, IOUtils

CONSTANTS Mix, Depth, MaxPts

VARIABLES ws, hist
vars == <<ws, hist>>
NS == 6
Blank == [i \in 1..NS |-> Empty]

mm == <<-3, 1, 0, 0, 0, 0, 0>>
m1 == <<0, 1, 0, 0, 0, 0, 0>>
vs == <<0, 1, -1, 0, 0, 0, 0>>
vms == <<-3, 1, -1, 0, 0, 0, 0>>
kg == <<0, 0, 0, 1, 0, 0, 0>>
Axes(n) == {[i \in 1..n |-> R(i - 2)], [i \in 1..n |-> Norm(i * i - 3, 2)], [i \in 1..n |-> R(2 * i - 2 * n - 2)]}
Vals(n) == {[i \in 1..n |-> Norm(((7 * i * i) % 11) - 4, IF i % 2 = 0 THEN 2 ELSE 1)],
            [i \in 1..n |-> IF i % 2 = 0 THEN R(-3) ELSE R(i - 1)]}
Ev(m, op, s, t, d, ip, a) == [m |-> m, op |-> op, s |-> s, t |-> t, d |-> d, ip |-> ip, a |-> a]
Mk(x, y, mask, ux, uy, d) ==
    Ev("p", "mk", 0, 0, d, FALSE, [x |-> x, y |-> y, mask |-> mask, ux |-> ux, uy |-> uy])
Run(w, e) == Step(w, e @@ [ret |-> <<>>], w)

\* the second profile: on the same axis (maybe in another unit), or not
Init ==
    \E n \in 1..MaxPts : \E x \in Axes(n) : \E y \in Vals(n) : \E mask \in [1..n -> BOOLEAN] :
    \E rev \in BOOLEAN : \E o \in 1..4 :
      /\ Mix = "arith" \/ o = 1
      /\ LET e == IF rev THEN Mk(Rev(x), Rev(y), Rev(mask), m1, vs, 1) ELSE Mk(x, y, mask, m1, vs, 1)
             y2 == [i \in 1..n |-> IF i = n THEN Zero ELSE Norm(3 - 2 * i, 4)]
             m2 == [i \in 1..n |-> i = 1 /\ n > 2]
             f == CASE o = 1 -> Mk(x, y2, m2, m1, vms, 2)
                    [] o = 2 -> Mk(ScaleSeq(x, R(1000)), y2, m2, mm, vs, 2)
                    [] o = 3 -> Mk([x EXCEPT ![1] = QSub(x[1], <<1, 4>>)], y2, m2, m1, vs, 2)
                    [] o = 4 -> Mk(x, y2, m2, m1, kg, 2)
             w1 == TLCEval(Run(Blank, e).ws)
         IN  hist = <<e, f>> /\ ws = TLCEval(Run(w1, f).ws)

Fac(q, u) == [kind |-> "unum", q |-> q, u |-> u]
NoFac == [kind |-> "none", q |-> One, u |-> UNone]
NumF(q) == [kind |-> "num", q |-> q, u |-> UNone]
ips == {<<FALSE, 3>>, <<TRUE, 1>>}
Mid(a, b) == QMul(<<1, 2>>, QAdd(a, b))
\* positions at, between and around the points
Spots(x) == Range1(x) \cup {Mid(x[i], x[i + 1]) : i \in 1..(Len(x) - 1)} \cup {QSub(x[1], One), QAdd(x[Len(x)], One)}
Levels(p) == LET v == PValid(p) IN
    {q \in Range1(Pick(p.y, v)) \cup {Mid(p.y[v[k]], p.y[v[k + 1]]) : k \in 1..(Len(v) - 1)} :
        LET hits == {i \in 1..PN(p) : p.y[i] = q}
            cross == {i \in 1..(PN(p) - 1) : p.y[i] # M /\ p.y[i + 1] # M
                       /\ Sgn(QSub(p.y[i], q)) * Sgn(QSub(p.y[i + 1], q)) < 0}
        IN  hits = {} \/ (cross = {} /\ Cardinality(hits) = 1)}
Calls(w) ==
    LET p == w[1]
        n == PN(p)
        v == PValid(p)
        E(op, i, a) == Ev("p", op, 1, 0, i[2], i[1], a)
        Q(op, a) == Ev("p", op, 1, 0, 0, FALSE, a)
        N(op, a) == Ev("p", op, 1, 0, 3, FALSE, a)
        T(op, a) == Ev("p", op, 1, 2, 3, FALSE, a)
        S(op, a) == Ev("p", op, 1, 0, 1, TRUE, a)
    IN CASE Mix = "hold" ->
          {E("crop", i, [mode |-> "ind", wi |-> <<a, b>>]) : i \in ips, a \in 0..n, b \in 0..(n + 1)}
          \cup {E("crop", i, [mode |-> "x", w |-> <<a, b>>]) :
                  i \in ips, a \in Range1(p.x) \cup {QSub(p.x[1], One)}, b \in Spots(p.x)}
          \cup {E("crop", i, [mode |-> "y", w |-> <<a, b>>]) :
                  i \in ips, a \in {R(-3), <<-3, 2>>, R(0)}, b \in {R(0), R(2), <<5, 2>>}}
          \cup {E("crop", i, [mode |-> "xy", w |-> <<p.x[1], b>>, wy |-> <<R(-3), R(3)>>]) :
                  i \in ips, b \in {c \in Spots(p.x) : QLt(p.x[1], c)}}
          \cup {E("cropb", i, [z |-> 0]) : i \in IF v = <<>> THEN {} ELSE ips}
          \cup {E("rmnan", i, [z |-> 0]) : i \in ips}
          \cup {E("scale", i, [fx |-> fx, fy |-> fy, sx |-> <<fx.q, fx.u>>, sy |-> <<fy.q, fy.u>>]) :
                  i \in ips, fx \in {NoFac, NumF(R(-2)), Fac(R(3), m1)}, fy \in {NoFac, NumF(R(-1)), Fac(<<1, 2>>, kg)}}
          \cup {S("unit", [axe |-> x, u |-> u]) : x \in {"x", "y"}, u \in {mm, m1, vms, kg}}
          \cup {S("setx", [x |-> Rev(x)]) : x \in {[i \in 1..k |-> Norm(3 * i, 2)] : k \in {n, n + 1}}}
          \cup {S("setmask", [mask |-> [i \in 1..n |-> p.y[i] = M \/ i = k], how |-> h]) : k \in 1..n, h \in {"in", "set"}}
          \cup {S("addpt", [x |-> <<x, 8>>, y |-> y]) : x \in {-99, -1, 3, 99}, y \in {R(5), NAN}}
          \cup {S("rmpt", [i |-> k]) : k \in 0..(n - 1)}
          \cup {N("copy", [z |-> 0]), Q("len", [z |-> 0])}
         [] Mix = "arith" ->
          {T("add", [sub |-> b]) : b \in BOOLEAN}
          \cup {T("divp", [z |-> 0])} \cup (IF n > 1 THEN {T("mulp", [z |-> 0])} ELSE {})
          \cup {N("neg", [z |-> 0])}
          \cup {N("addq", [kind |-> k.kind, q |-> <<k.q>>, u |-> k.u, how |-> h]) :
                  k \in {NumF(R(2)), Fac(R(3), vms), Fac(R(3), vs), Fac(R(3), kg)}, h \in {"add", "sub", "rsub"}}
          \cup {N(o, [kind |-> k.kind, q |-> <<k.q>>, u |-> k.u]) :
                  o \in {"mulq", "divq"}, k \in {NumF(R(-2)), Fac(R(4), vs), Fac(<<1, 2>>, m1)}}
          \cup {N("pow", [n |-> k]) : k \in {1, 2, 3}}
         [] Mix = "look" ->
          {Q("stat", [kind |-> k]) : k \in {"min", "max", "mean"}}
          \cup {Q("ipx", [q |-> <<q>>, list |-> l, ind |-> FALSE]) : q \in Spots(p.x), l \in BOOLEAN}
          \cup {Q("ipx", [q |-> <<q>>, list |-> FALSE, ind |-> TRUE]) : q \in Spots(PIndex(p))}
          \cup {Q("ipy", [q |-> <<q>>, list |-> l]) : q \in Levels(p), l \in BOOLEAN}
          \cup {Q("vpos", [v |-> q, ind |-> b]) : q \in Levels(p), b \in BOOLEAN}
          \cup (IF v = <<>> THEN {} ELSE {Q("integ", [z |-> 0])})
          \cup (IF n < 2 THEN {} ELSE
                {N("grad", [z |-> 0])}
                \cup (IF Len(v) < n THEN {} ELSE
                      {Q("gradat", [q |-> q, dx |-> d]) : q \in Spots(p.x), d \in {<<>>, <<<<1, 2>>>>}})
                \cup {T("conv", [mode |-> x]) : x \in {"full", "same", "valid"}})
          \cup (IF Len(v) < 2 THEN {} ELSE
                {E("fill", i, [kind |-> k, v |-> R(5), crop |-> c]) : i \in ips, k \in {"linear", "slinear"}, c \in BOOLEAN}
                \cup {E("fill", i, [kind |-> "value", v |-> R(5), crop |-> FALSE]) : i \in ips}
                \cup {E("smooth", i, [size |-> k, dir |-> x]) : i \in ips, k \in {2, 3}, x \in {"x", "y"}}
                \cup {E("augment", i, [fact |-> k]) : i \in ips, k \in 1..3}
                \cup (IF n < 3 \/ p.y[1] = M \/ p.y[n] = M THEN {} ELSE
                      {E("even", i, [dx |-> d]) : i \in ips, d \in {<<<<1, 2>>>>, <<One>>}})
                \cup {Q("interp", [q |-> q, strict |-> b]) : q \in Spots(p.x), b \in BOOLEAN})

Next ==
    /\ Len(hist) <= Depth + 1
    /\ PN(ws[1]) > 0
    /\ \E e \in Calls(ws) :
         LET r == TLCEval(Run(ws, e)) IN
         /\ r.ok \/ Len(hist) = Depth + 1
         /\ hist' = Append(hist, e)
         /\ ws' = r.ws
         /\ Len(hist') = Depth + 2 => PrintT("PROG " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
WellFormed == \A i \in 1..NS : WFObj(ws[i])
Laws ==
    Len(hist) = 2 =>
    LET p == ws[1]
        r == ws[2]
        n == PN(p)
        v == PValid(p)
    IN
    \* the order in which the points are given does not matter
    /\ PSort([p EXCEPT !.x = Rev(p.x), !.y = Rev(p.y)]) = p
    \* cropping by x is cropping by index, and twice is once
    /\ \A a \in 1..n : \A b \in a..n : PSub(p, InWin(p.x, p.x[a], p.x[b])) = PCropInd(p, a - 1, b)
    /\ v # <<>> => /\ PTrim(PTrim(p)) = PTrim(p)
                   /\ PValid(PTrim(p))[1] = 1
    \* subtracting what was added
    /\ PSame(p, r) /\ UCompat(p.uy, r.uy) =>
         \A i \in 1..n : PAdd(PAdd(p, r, 1), r, -1).y[i] \in {p.y[i], M}
    \* looking up at the points gives the points, between them something between
    /\ \A i \in 1..n : PAt(p.x, p.y, p.x[i]) = <<p.y[i]>>
    /\ \A q \in Levels(p) : \A k \in 1..Len(PCross(p.x, p.y, q)) : PAt(p.x, p.y, PCross(p.x, p.y, q)[k]) = <<q>>
    \* filling keeps the valid points and the bounds
    /\ Len(v) > 1 =>
         LET g == PFill(p) IN
         /\ \A i \in Range1(v) : g.y[i] = p.y[i]
         /\ \A i \in 1..n : g.y[i] # M /\ QLe(QMinSeq(Pick(p.y, v)), g.y[i]) /\ QLe(g.y[i], QMaxSeq(Pick(p.y, v)))
         /\ PSmooth(g.y, 1) = g.y
         /\ \A i \in 1..n : QLe(PSmooth(g.y, 3)[i], QMaxSeq(g.y))
         /\ PAugment(p, 1).x[1] = p.x[v[1]]
    \* integral of a gradient over full even profiles, linearity of convolution
    /\ n > 1 /\ Len(v) = n /\ PEven(p) =>
         /\ \A c \in {R(2), R(-3)} : PGrad(PMap(p, LAMBDA y : QMul(c, y))).y = ScaleSeq(PGrad(p).y, c)
         /\ PConv(p.y, <<One>>, "full") = p.y
         /\ PConv(p.y, <<One, R(2)>>, "full") = PConv(<<One, R(2)>>, p.y, "full")
         /\ Len(PConv(p.y, <<One, One>>, "same")) = n
    \* one point per x
    /\ PDoub(p, "average") = p
=============================================================================
