------------------------------ MODULE MCPoints ------------------------------
(* Small-scope exploration of the calls on sets of points, oriented or not,  *)
(* and on temporal sets: a few points, with and without values, then every   *)
(* call of a family.                                                         *)
EXTENDS IMT, Json, IOUtils

CONSTANTS Mix, Depth, MaxPts

VARIABLES ws, hist
vars == <<ws, hist>>
NS == 6
Blank == [i \in 1..NS |-> Empty]

mm == <<-3, 1, 0, 0, 0, 0, 0>>
m1 == <<0, 1, 0, 0, 0, 0, 0>>
s1 == <<0, 0, 1, 0, 0, 0, 0>>
ms == <<-3, 0, 1, 0, 0, 0, 0>>
kg == <<0, 0, 0, 1, 0, 0, 0>>
Ev(m, op, s, t, d, ip, a) == [m |-> m, op |-> op, s |-> s, t |-> t, d |-> d, ip |-> ip, a |-> a]
XYs(n) == {[i \in 1..n |-> <<R(((3 * i) % 5) - 2), Norm(((2 * i) % 7) - 3, 2)>>],
           [i \in 1..n |-> <<Norm(7 - i * i, 2), R(i % 2)>>]}
Ors(n) == [i \in 1..n |-> <<<<R(i - 2), One>>, <<R(2), R(-i)>>>>]
Val1(n) == [i \in 1..n |-> Norm(((7 * i) % 5) - 2, 2)]
Mk(xy, v, ori, ux, uy, uv, d) ==
    Ev("s", "mk", 0, 0, d, FALSE, [xy |-> xy, v |-> v, ori |-> ori, or |-> IF ori THEN Ors(Len(xy)) ELSE <<>>,
                                   ux |-> ux, uy |-> uy, uv |-> uv])
Run(w, e) == Step(w, e @@ [ret |-> <<>>], w)
RECURSIVE RunAll(_, _)
RunAll(w, es) == IF es = <<>> THEN w ELSE RunAll(TLCEval(Run(w, es[1]).ws), Tail(es))

\* a set, and another in other units of the same kind (with or without values)
Sets == \E n \in 1..MaxPts : \E xy \in XYs(n) : \E v \in BOOLEAN : \E ori \in BOOLEAN : \E o \in 1..3 :
    /\ Mix = "hold" \/ (~ori /\ o = 1)
    /\ LET e == Mk(xy, IF v THEN Val1(n) ELSE <<>>, ori, m1, m1, s1, 1)
           f == CASE o = 1 -> Mk(Rev(xy), IF v THEN Val1(n) ELSE <<>>, ori, mm, m1, s1, 2)
                  [] o = 2 -> Mk(<<xy[1]>>, IF v THEN <<>> ELSE <<One>>, ori, m1, m1, s1, 2)
                  [] o = 3 -> Mk(<<xy[1]>>, IF v THEN <<R(5)>> ELSE <<>>, ori, m1, IF v THEN m1 ELSE kg, IF v THEN ms ELSE s1, 2)
       IN  hist = <<e, f>> /\ ws = RunAll(Blank, <<e, f>>)
\* two sets added at times given in either order, in either unit
Times == \E n \in 1..MaxPts : \E xy \in XYs(n) : \E v \in BOOLEAN : \E t \in {<<R(2), R(1)>>, <<R(1), R(4)>>} : \E u \in {s1, ms} :
    LET w == IF v THEN Val1(n) ELSE <<>>
        w1 == IF v THEN <<R(5)>> ELSE <<>>
        h == <<Ev("tp", "new", 0, 0, 1, FALSE, [z |-> 0]), Mk(xy, w, FALSE, m1, m1, kg, 2),
               Mk(<<xy[1]>>, w1, FALSE, m1, m1, kg, 3),
               Ev("tp", "add", 1, 2, 1, TRUE, [time |-> t[1], u |-> s1]),
               Ev("tp", "add", 1, 3, 1, TRUE, [time |-> t[2], u |-> u])>>
    IN  hist = h /\ ws = RunAll(Blank, h)
Pre == IF Mix = "times" THEN 5 ELSE 2
Init == IF Mix = "times" THEN Times ELSE Sets

Fac(q, u) == [kind |-> "unum", q |-> q, u |-> u]
NoFac == [kind |-> "none", q |-> One, u |-> UNone]
NumF(q) == [kind |-> "num", q |-> q, u |-> UNone]
ips == {<<FALSE, 4>>, <<TRUE, 1>>}
Mid(a, b) == QMul(<<1, 2>>, QAdd(a, b))
Wins(s) == {<<>>} \cup {<<a, b>> : a \in Range1(s) \cup {QSub(QMinSeq(s), One)}, b \in Range1(s) \cup {QAdd(QMaxSeq(s), <<1, 2>>)}}
Dist(s) == Cardinality(Range1(s)) = Len(s)
Calls(w) ==
    LET p == w[1]
        n == SN(p)
        E(op, i, a) == Ev("s", op, 1, 0, i[2], i[1], a)
        Q(op, a) == Ev("s", op, 1, 0, 0, FALSE, a)
        N(op, a) == Ev("s", op, 1, 0, 4, FALSE, a)
        T(op, a) == Ev("s", op, 1, 2, 4, FALSE, a)
        S(op, a) == Ev("s", op, 1, 0, 1, TRUE, a)
        ok(x) == x[1] = <<>> \/ QLe(x[1][1], x[1][2])
    IN CASE Mix = "hold" ->
          {E("crop", i, [ind |-> FALSE, wi |-> <<>>, wx |-> wx, wy |-> wy, wv |-> <<>>]) :
             i \in ips, wx \in Wins(SX(p)), wy \in {<<>>} \cup {<<a, b>> : a \in {SY(p)[1]}, b \in {SY(p)[1], R(4)}}}
          \cup (IF ~HasV(p) THEN {} ELSE
                {E("crop", i, [ind |-> FALSE, wi |-> <<>>, wx |-> <<>>, wy |-> <<>>, wv |-> wv]) : i \in ips, wv \in Wins(p.v)}
                \cup (IF p.k = "O" THEN {} ELSE
                      {E("crop", i, [ind |-> TRUE, wi |-> <<a, b>>, wx |-> <<>>, wy |-> <<>>, wv |-> <<>>]) :
                         i \in ips, a \in 0..n, b \in 0..(n + 1)})
                \cup (IF Dist(p.v) THEN {E("sort", i, [ref |-> "v", ids |-> <<>>]) : i \in ips} ELSE {}))
          \cup {N("cut", [wx |-> wx, wy |-> wy]) : wx \in Wins(SX(p)), wy \in {<<>>, <<SY(p)[1], R(4)>>, <<R(-9), R(9)>>}}
          \cup {T("cat", [z |-> 0])}
          \cup {S("addpt", [xy |-> <<R(8), R(9)>>, v |-> v, or |-> IF p.k = "O" THEN <<<<R(1), R(0)>>, <<R(0), R(1)>>>> ELSE <<>>]) :
                  v \in {<<>>, <<R(3)>>}}
          \cup {S("rm", [ids |-> ids]) : ids \in {<<i>> : i \in 0..(n - 1)} \cup (IF n > 2 THEN {<<0, 2>>, <<2, 0>>} ELSE {})}
          \cup {S("unit", [axe |-> x, u |-> u]) : x \in IF HasV(p) THEN {"x", "y", "v"} ELSE {"x", "y"}, u \in {mm, m1, ms, kg}}
          \cup {S("origin", [x |-> R(2), y |-> <<-1, 2>>])}
          \cup {E("sort", i, [ref |-> x, ids |-> <<>>]) : i \in ips, x \in {r \in {"x", "y"} : Dist(SCoord(p, r))}}
          \cup {E("sort", i, [ref |-> "ids", ids |-> [k \in 1..n |-> (n - k + 1) % n]]) : i \in ips}
          \cup (IF p.k = "O" THEN {} ELSE
                {E("scale", i, [fx |-> fx, fy |-> fy, fv |-> fv, sx |-> <<fx.q, fx.u>>, sy |-> <<fy.q, fy.u>>, sv |-> <<fv.q, fv.u>>]) :
                   i \in ips, fx \in {NoFac, NumF(R(-2)), Fac(R(3), m1)}, fy \in {NoFac, Fac(R(-1), mm)},
                   fv \in IF HasV(p) THEN {NoFac, NumF(R(-1)), Fac(<<1, 2>>, kg)} ELSE {NoFac}})
          \cup {E("rotate", i, [c |-> c[1], s |-> c[2]]) :
                  i \in ips, c \in {<<R(0), R(1)>>, <<R(-1), R(0)>>, <<R(0), R(-1)>>, <<<<3, 5>>, <<4, 5>>>>}}
          \cup {N("reverse", [z |-> 0]), N("copy", [z |-> 0]), Q("len", [z |-> 0]), Q("iter", [z |-> 0])}
          \cup (IF HasV(p) \/ n = 1 THEN {N("decomp", [i |-> i]) : i \in 0..(n - 1)} ELSE {})
         [] Mix = "derive" ->
          (IF n < 2 THEN {} ELSE
             {E("augment", i, [fact |-> k]) : i \in ips, k \in 1..3}
             \cup {E("smooth", i, [size |-> k]) : i \in ips, k \in 1..3}
             \cup (IF HasV(p) /\ ~Dist(p.v) THEN {} ELSE
                   {N("veloc", [comp |-> c, incr |-> k, xaxis |-> "time"]) : c \in {"x", "y"}, k \in 1..(n - 1)}))
          \cup {N("toprof", [x |-> x, y |-> y]) : y \in {"x", "y"}, x \in {r \in IF HasV(p) THEN {"x", "y", "v"} ELSE {"x", "y"} : Dist(SCoord(p, r))}}
          \cup (IF HasV(p) /\ \E i \in 1..n : p.v[i] # Zero
                THEN {E("doub", i, [how |-> h]) : i \in ips, h \in {"average", "min", "max"}} ELSE {})
         [] Mix = "times" ->
          LET t == w[1]
              XE(op, i, a) == Ev("tp", op, 1, 0, i[2], i[1], a)
              XS(op, a) == Ev("tp", op, 1, 0, 1, TRUE, a)
              XQ(op, a) == Ev("tp", op, 1, 0, 0, FALSE, a)
              vv == t.ps[1].v # <<>>
          IN  {XE("crop", i, [wx |-> <<>>, wy |-> <<>>, wv |-> <<>>, wi |-> <<>>, wt |-> wt]) :
                 i \in ips, wt \in {x \in Wins(t.ts) : x = <<>> \/ QLe(x[1], x[2])}}
              \cup {XE("crop", i, [wx |-> wx, wy |-> <<>>, wv |-> <<>>, wi |-> wi, wt |-> <<>>]) :
                 i \in ips, wi \in {<<>>, <<0, 0>>, <<1, 1>>, <<0, 1>>}, wx \in Wins(SX(t.ps[1]))}
              \cup {XE("scale", i, [fx |-> fx, fy |-> NoFac, fv |-> fv, ft |-> ft, sx |-> <<fx.q, fx.u>>, sy |-> <<One, UNone>>,
                                    sv |-> <<fv.q, fv.u>>, st |-> <<ft.q, ft.u>>]) :
                 i \in ips, fx \in {NoFac, Fac(R(-2), mm)}, fv \in IF vv THEN {NoFac, NumF(R(3)), Fac(R(2), s1)} ELSE {NoFac},
                 ft \in {NoFac, NumF(R(-1)), NumF(<<1, 2>>), Fac(R(2), m1)}}
              \cup {XS("unit", [axe |-> x, u |-> u]) : x \in IF vv THEN {"x", "y", "time", "values"} ELSE {"x", "y", "time"},
                      u \in {mm, m1, ms, s1, kg}}
              \cup {XS("rm", [ids |-> ids]) : ids \in {<<0>>, <<1>>}}
              \cup {XS("settimes", [ts |-> ts]) : ts \in {<<R(3), R(2)>>, <<R(-1), R(7)>>, <<R(1)>>, <<R(1), R(2), R(3)>>}}
              \cup {XS("setunit", [axe |-> x, u |-> mm]) : x \in {"x", "y"}}
              \cup {XE("smooth", i, [size |-> k]) : i \in ips, k \in 1..3}
              \cup {XQ("len", [z |-> 0]), XQ("iter", [z |-> 0]), Ev("tp", "copy", 1, 0, 4, FALSE, [z |-> 0])}
              \cup {Ev("tp", "get", 1, 0, 4, FALSE, [i |-> i]) : i \in 0..1}
              \cup {Ev("tp", "add", 1, 2, 1, TRUE, [time |-> q, u |-> u]) : q \in {R(3), <<1, 2>>, R(10)}, u \in {s1, ms, kg}}

Next ==
    /\ Len(hist) < Depth + Pre
    /\ IF Mix = "times" THEN TPN(ws[1]) = 2 /\ \A i \in 1..2 : SN(ws[1].ps[i]) > 0 ELSE SN(ws[1]) > 0
    /\ \E e \in Calls(ws) :
         LET r == TLCEval(Run(ws, e)) IN
         /\ r.ok \/ Len(hist) = Depth + Pre - 1
         /\ hist' = Append(hist, e)
         /\ ws' = r.ws
         /\ Len(hist') = Depth + Pre => PrintT("PROG " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
WellFormed == \A i \in 1..NS : WFObj(ws[i])
PtsLaws(p) ==
    LET n == SN(p)
        whole == <<R(-99), R(99)>>
        rot(c, s) == LET g(x, y) == <<QSub(QMul(x, c), QMul(y, s)), QAdd(QMul(y, c), QMul(x, s))>> IN SMapOr(SMapXY(p, g), g)
        back(q, c, s) == LET g(x, y) == <<QSub(QMul(x, c), QMul(y, s)), QAdd(QMul(y, c), QMul(x, s))>> IN SMapOr(SMapXY(q, g), g)
    IN
    \* a window and its complement share out the points
    /\ \A wx \in Wins(SX(p)) : wx # <<>> => SN(SCrop(p, wx, <<>>, <<>>)) + SN(SCut(p, wx, <<>>)) >= n
    /\ SCrop(p, whole, whole, whole) = p
    /\ SCut(p, whole, whole) = SSub(p, <<>>)
    /\ back(rot(<<3, 5>>, <<4, 5>>), <<3, 5>>, <<-4, 5>>) = p
    /\ \A u \in {mm, m1} : SToUnit(SToUnit(p, "x", u), "x", p.ux) = p
    /\ Dist(SX(p)) => /\ SSort(SSort(p, "x"), "x") = SSort(p, "x")
                      /\ Ascending(SX(SSort(p, "x")))
                      /\ Range1(SSort(p, "x").xy) = Range1(p.xy)
    /\ SScale(SScale(p, <<R(-2), m1>>, <<One, UNone>>, <<One, UNone>>), <<<<-1, 2>>, UInv(m1)>>, <<One, UNone>>, <<One, UNone>>) = p
    /\ p.k = "S" /\ n > 1 => /\ SAug(p, 1) = p /\ SSmooth(p, 1) = p
                             /\ \A k \in {2, 3} : Len(SAug(p, k).xy) = (n - 1) * k + 1
Laws == Len(hist) = Pre =>
    IF Mix = "times"
    THEN /\ Sorted(ws[1].ts) /\ PtsLaws(ws[2])
         /\ TPSort(ws[1]) = ws[1]
         /\ TPAdd(TPSub(ws[1], <<2>>), ws[1].ps[1], ws[1].ts[1]) = ws[1]
    ELSE /\ PtsLaws(ws[1]) /\ PtsLaws(ws[2])
         /\ ~SCatErr(ws[1], ws[2]) => SN(SCat(ws[1], ws[2])) = SN(ws[1]) + SN(ws[2])
=============================================================================
