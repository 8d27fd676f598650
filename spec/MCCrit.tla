------------------------------- MODULE MCCrit -------------------------------
(* Small-scope exploration of the calls on critical points: points of two    *)
(* kinds at up to three times given in any order, then every call.           *)
EXTENDS IMT, Json, IOUtils

CONSTANTS Mix, Depth, MaxT

VARIABLES ws, hist
vars == <<ws, hist>>
NS == 6
Blank == [i \in 1..NS |-> Empty]

mm == <<-3, 1, 0, 0, 0, 0, 0>>
m1 == <<0, 1, 0, 0, 0, 0, 0>>
s1 == <<0, 0, 1, 0, 0, 0, 0>>
ms == <<-3, 0, 1, 0, 0, 0, 0>>
kg == <<0, 0, 0, 1, 0, 0, 0>>
Ev(m, op, s, t, d, ip, a) == [m |-> m, op |-> op, s |-> s, t |-> t, d |-> d, ip |-> ip, a |-> a]
Mk(xy, d) == Ev("s", "mk", 0, 0, d, FALSE, [xy |-> xy, v |-> <<>>, ori |-> FALSE, or |-> <<>>, ux |-> m1, uy |-> m1, uv |-> s1])
Run(w, e) == Step(w, e @@ [ret |-> <<>>], w)
RECURSIVE RunAll(_, _)
RunAll(w, es) == IF es = <<>> THEN w ELSE RunAll(TLCEval(Run(w, es[1]).ws), Tail(es))
\* foci near one of two places, and saddles
Foci(i) == CASE i = 1 -> <<<<R(0), R(0)>>>>
             [] i = 2 -> <<<<<<1, 2>>, R(0)>>, <<R(4), R(1)>>>>
             [] i = 3 -> <<<<R(4), <<3, 2>>>>, <<R(1), <<1, 2>>>>>>
             [] i = 4 -> <<>>
Sadds(i) == CASE i = 1 -> <<<<R(1), R(1)>>>>
              [] i = 2 -> <<<<R(3), <<5, 2>>>>>>
              [] i = 3 -> <<>>
Sorts == {<<1, 0, 0, 0, 2>>, <<0, 1, 2, 0, 0>>}
Orders == IF MaxT = 2 THEN {<<2, 1>>, <<1, 3>>} ELSE {<<3, 1, 2>>, <<1, 2, 4>>, <<2, 3, 1>>}
At(k, j, sort, time) ==
    <<Mk(Foci(k), 2), Mk(Sadds(j), 3),
      Ev("cp", "add", 1, 0, 1, TRUE, [time |-> R(time), p |-> [c \in CKinds |-> IF sort[c] = 0 THEN 0 ELSE sort[c] + 1]])>>
New == Ev("cp", "new", 0, 0, 1, FALSE, [u |-> s1])
Init == \E sort \in Sorts : \E o \in Orders : \E k1, k2 \in 1..4 : \E j \in 1..3 : \E tr \in BOOLEAN :
    LET h == <<New>> \o At(k1, j, sort, o[1]) \o At(k2, (j % 3) + 1, sort, o[2])
             \o (IF MaxT = 2 THEN <<>> ELSE At((k1 % 4) + 1, j, sort, o[3]))
             \o (IF tr THEN <<Ev("cp", "traj", 1, 0, 1, TRUE, [eps |-> <<R(2)>>])>> ELSE <<Ev("cp", "copy", 1, 0, 5, FALSE, [z |-> 0])>>)
    IN  hist = h /\ ws = RunAll(Blank, h)
Pre == 3 * MaxT + 2

Fac(q, u) == [kind |-> "unum", q |-> q, u |-> u]
NoFac == [kind |-> "none", q |-> One, u |-> UNone]
NumF(q) == [kind |-> "num", q |-> q, u |-> UNone]
ips == {<<FALSE, 4>>, <<TRUE, 1>>}
Wins(s) == {<<>>} \cup {x \in {<<a, b>> : a \in Range1(s) \cup {QSub(QMinSeq(s), One)}, b \in Range1(s) \cup {QAdd(QMaxSeq(s), <<1, 2>>)}} : QLe(x[1], x[2])}
Calls(w) ==
    LET t == w[1]
        n == CN(t)
        E(op, i, a) == Ev("cp", op, 1, 0, i[2], i[1], a)
        N(op, a) == Ev("cp", op, 1, 0, 4, FALSE, a)
        S(op, a) == Ev("cp", op, 1, 0, 1, TRUE, a)
        crop(wx, wy, wt, wi) == [wx |-> wx, wy |-> wy, wt |-> wt, wi |-> wi]
    IN  {S("traj", [eps |-> e]) : e \in {<<>>, <<R(1)>>, <<<<1, 2>>>>, <<<<3, 2>>>>, <<R(6)>>}}
        \cup {S("clean", [min |-> k]) : k \in 1..3}
        \cup {S("smooth", [size |-> k]) : k \in {1, 3}}
        \cup {E("crop", i, crop(<<>>, <<>>, wt, <<>>)) : i \in ips, wt \in Wins(t.ts) \ {<<>>}}
        \cup {E("crop", i, crop(<<>>, <<>>, <<>>, <<a, b>>)) : i \in ips, a \in 0..(n - 1), b \in 0..n}
        \cup {E("crop", i, crop(wx, wy, wt, <<>>)) : i \in ips, wx \in {<<R(0), R(1)>>, <<R(1), R(5)>>}, wy \in {<<>>, <<R(0), R(1)>>},
                wt \in {<<>>, <<t.ts[1], t.ts[1]>>}}
        \cup {E("scale", i, [fx |-> fx, fy |-> fy, fv |-> fv, sx |-> <<fx.q, fx.u>>, sy |-> <<fy.q, fy.u>>, sv |-> <<fv.q, fv.u>>]) :
                i \in ips, fx \in {NoFac, NumF(R(-2)), Fac(R(3), m1)}, fy \in {NoFac, NumF(R(2))}, fv \in {NoFac, NumF(R(4)), Fac(R(2), m1)}}
        \cup {S("unit", [axe |-> x, u |-> u]) : x \in {"x", "y", "time"}, u \in {mm, m1, ms, kg}}
        \cup {S("origin", [x |-> R(2), y |-> <<-1, 2>>]), N("copy", [z |-> 0])}
        \cup {S("rm", [ind |-> TRUE, i |-> i, time |-> Zero]) : i \in 0..n}
        \cup {S("rm", [ind |-> FALSE, i |-> 0, time |-> x]) : x \in Range1(t.ts) \cup {R(9)}}
        \cup {S("add", [time |-> x, p |-> p]) : x \in {R(0), <<5, 2>>, R(9), t.ts[1]}, p \in {<<2, 0, 0, 0, 3>>, <<0, 0, 0, 3, 0>>}}
        \cup {Ev("cp", "cat", 1, 1, 4, FALSE, [z |-> 0])}
        \cup {Ev("cp", "cat", i, j, 4, FALSE, [z |-> 0]) : i \in {1, 5}, j \in {i2 \in {1, 5} : w[5].k = "CP"}}
        \cup {N("topo", [d |-> d, kind |-> k]) : d \in {<<1, 2>>, R(2), <<7, 2>>, R(9)}, k \in {"replacement", "only_delete"}}

NoTie(e, t) == IF e.op # "topo" THEN TRUE ELSE \A n \in 1..CN(t) : ~CTopoAt(t, n, QMul(e.a.d, e.a.d), e.a.kind)[2]
Live(e) == IF e.op # "cat" THEN TRUE ELSE (ws[e.s].k = "CP" /\ ws[e.t].k = "CP")
Next ==
    /\ Len(hist) < Depth + Pre
    /\ CN(ws[1]) > 0
    /\ \E e \in Calls(ws) :
         /\ Live(e) /\ NoTie(e, ws[1])
         /\ LET r == TLCEval(Run(ws, e)) IN
            /\ r.ok \/ Len(hist) = Depth + Pre - 1
            /\ hist' = Append(hist, e)
            /\ ws' = r.ws
            /\ Len(hist') = Depth + Pre => PrintT("PROG " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
WellFormed == \A i \in 1..NS : WFObj(ws[i])
Count(t, c) == LET f[n \in 0..CN(t)] == IF n = 0 THEN 0 ELSE f[n - 1] + SN(t.kinds[c][n]) IN f[CN(t)]
SumLen(ls) == LET s == ToSeq(ls)
                  f[n \in 0..Len(s)] == IF n = 0 THEN 0 ELSE f[n - 1] + Len(s[n])
              IN  f[Len(s)]
Index(t, n) == LET f[c \in 0..5] == IF c = 0 THEN 0 ELSE f[c - 1] + (IF c = 5 THEN -1 ELSE 1) * SN(t.kinds[c][n]) IN f[5]
CritLaws(t) ==
    /\ \A c \in CKinds : \A e \in {<<>>, Zero, R(1), R(9)} :
         LET ls == CLines(t, c, e)[1] IN
         \* every point is in exactly one trajectory, which never skips a time
         /\ SumLen(ls) = Count(t, c)
         /\ UNION {Range1(l) : l \in ls} = UNION {{<<t.ts[n], x>> : x \in Range1(t.kinds[c][n].xy)} : n \in 1..CN(t)}
         /\ \A l \in ls : \A i \in 1..(Len(l) - 1) :
              /\ \E n \in 1..(CN(t) - 1) : t.ts[n] = l[i][1] /\ t.ts[n + 1] = l[i + 1][1]
              /\ e = <<>> \/ QLe(Dist2(l[i][2], l[i + 1][2]), e)
    \* simplifying keeps the index of the whole (unless a point of index 2 comes out)
    /\ \A n \in 1..CN(t) : \A k \in {"replacement", "only_delete"} : \A d2 \in {One, R(8), R(99)} :
         LET r == TopoMerge(TopoItems(t, n), d2)
             x == CTopoAt(t, n, d2, k)
             g == [t EXCEPT !.kinds = [c \in CKinds |-> [i \in 1..CN(t) |-> IF i = n THEN x[1][c] ELSE t.kinds[c][i]]]]
         IN  x[2] \/ (\E z \in Range1(r[1]) : z.pbi \notin {-1, 0, 1}) \/ Index(g, n) = Index(t, n)
    /\ CSort(t) = t
    /\ HasTraj(t) => /\ [CClean(t, 1) EXCEPT !.kinds = t.kinds] = t
                     /\ \A c \in CKinds : Count(CClean(t, 2), c) <= Count(t, c)
    /\ CNoTraj(CCropT(t, Span(1, CN(t)))) = CNoTraj(t)
Laws == Len(hist) = Pre => CritLaws(ws[1])
=============================================================================
