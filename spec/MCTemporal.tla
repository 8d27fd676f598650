----------------------------- MODULE MCTemporal -----------------------------
(* Small-scope exploration of the calls on temporal sets: small sets of      *)
(* fields given in every order of times with every pattern of masked points, *)
(* then every call of a family.  Checks that the sets stay well formed and   *)
(* the laws below, and prints each history for replay on the real code.      *)
EXTENDS IMT, Json, IOUtils

CONSTANTS Mix, Depth, MaxFields

VARIABLES ws, hist
vars == <<ws, hist>>
NS == 6
Blank == [i \in 1..NS |-> Empty]

mm == <<-3, 1, 0, 0, 0, 0, 0>>
m1 == <<0, 1, 0, 0, 0, 0, 0>>
vs == <<0, 1, -1, 0, 0, 0, 0>>
vms == <<-3, 1, -1, 0, 0, 0, 0>>
sec == <<0, 0, 1, 0, 0, 0, 0>>
msec == <<-3, 0, 1, 0, 0, 0, 0>>
AX == <<R(-1), R(1)>>
AY == <<R(0), R(2)>>
Val(c, n, i, j) == Norm((3 * i - 4 * j + i * j * n) * (IF c = 1 THEN 1 ELSE -1) + c * n, IF (i + j) % 2 = 0 THEN 1 ELSE 2)
\* the same few masks for every field: none, one point, a line, all but one point
Masks == {[i \in 1..2 |-> [j \in 1..2 |-> <<i, j>> \in S]] :
             S \in {{}, {<<1, 1>>}, {<<2, 1>>, <<2, 2>>}, {<<1, 1>>, <<1, 2>>, <<2, 1>>}}}
Orders(n) == {p \in [1..n -> {R(-1), R(0), R(2)}] : \A i, j \in 1..n : i # j => p[i] # p[j]}
FArg(nc, n, mask) ==
    [nc |-> nc, ax |-> AX, ay |-> AY, ux |-> mm, uy |-> m1, uv |-> vs, mask |-> mask,
     v |-> [c \in 1..nc |-> [i \in 1..2 |-> [j \in 1..2 |-> Val(c, n, i, j)]]]]
Ev(m, op, s, t, d, ip, a) == [m |-> m, op |-> op, s |-> s, t |-> t, d |-> d, ip |-> ip, a |-> a]
MkT(nc, ms, times, u) ==
    Ev("t", "mkt", 0, 0, 1, FALSE,
       [nc |-> nc, times |-> times, u |-> u, fs |-> [n \in 1..Len(ms) |-> FArg(nc, n, ms[n])]])
MkF(nc, n, d) == Ev("f", "mk", 0, 0, d, FALSE, FArg(nc, n, [i \in 1..2 |-> [j \in 1..2 |-> i = n /\ j = 1]]))
Run(w, e) == Step(w, e @@ [ret |-> <<>>], w)

Init ==
    \E nc \in {1, 2} : \E n \in 1..MaxFields : \E p \in Orders(n) : \E ms \in [1..n -> Masks] :
    \E u \in {sec, msec} :
      /\ nc = 1 \/ u = sec
      /\ LET e == MkT(nc, ms, p, u)
             f == MkF(nc, 2, 2)
             w1 == TLCEval(Run(Blank, e).ws)
         IN  hist = <<e, f>> /\ ws = TLCEval(Run(w1, f).ws)

Fac(q, u) == [kind |-> "unum", q |-> q, u |-> u]
NoFac == [kind |-> "none", q |-> One, u |-> UNone]
NumF(q) == [kind |-> "num", q |-> q, u |-> UNone]
ScaleArg(fx, fy, fv, ft) ==
    [fx |-> fx, fy |-> fy, fv |-> fv, ft |-> ft, sx |-> <<fx.q, fx.u>>, sy |-> <<fy.q, fy.u>>,
     sv |-> <<fv.q, fv.u>>, st |-> <<ft.q, ft.u>>]
LastTime(t) == t.ts[NT(t)]
ips == {<<FALSE, 3>>, <<TRUE, 1>>}
\* some point is valid at some time
Live(t) == \E i \in 1..Len(t.ax) : \E j \in 1..Len(t.ay) : ~CumMasked(t, i, j)
Calls(w) ==
    LET t == w[1]
        E(op, p, a) == Ev("t", op, 1, 0, p[2], p[1], a)
        Q(op, a) == Ev("t", op, 1, 0, 0, FALSE, a)
        N(op, a) == Ev("t", op, 1, 0, 3, FALSE, a)
    IN CASE Mix = "hold" ->
          {Ev("t", "addf", 1, 2, 1, TRUE, [time |-> x, u |-> u]) :
             x \in {R(-3), R(1), R(1000), <<1, 2>>}, u \in {sec, msec}}
          \cup {Ev("t", "rmf", 1, 0, 1, TRUE, [ids |-> s]) :
             s \in {<<0>>, <<NT(t) - 1>>} \cup (IF NT(t) > 2 THEN {<<0, 1>>, <<0, 2>>, <<-1>>, <<1, 0>>} ELSE {})}
          \cup {N("field", [n |-> k]) : k \in 0..(NT(t) - 1)}
          \cup {N("copy", [z |-> 0]), Q("iter", [z |-> 0])}
          \cup {Ev("t", "settimes", 1, 0, 1, TRUE, [ts |-> [k \in 1..n |-> R(2 * k)]]) : n \in {NT(t), NT(t) + 1}}
          \cup {Ev("t", "setunit", 1, 0, 1, TRUE, [axe |-> x, u |-> sec]) : x \in {"time", "x", "y"}}
          \cup (IF t.nc = 2 THEN {N("comp", [c |-> c]) : c \in {1, 2}} ELSE {})
         [] Mix = "space" ->
          {E("rotate", p, [angle |-> x]) : p \in ips, x \in {90, 180, -90, 45}}
          \cup {E("crop", p, [mode |-> "val", wx |-> wx, wy |-> <<>>, wt |-> wt]) :
             p \in ips, wx \in {<<>>, <<R(0), R(3)>>, <<R(2), R(3)>>},
             wt \in {<<>>, <<t.ts[1], t.ts[1]>>, <<QSub(t.ts[1], One), LastTime(t)>>,
                     <<QAdd(LastTime(t), One), QAdd(LastTime(t), R(2))>>}}
          \cup {E("cropb", p, [hard |-> FALSE]) : p \in IF Live(t) THEN ips ELSE {}}
          \cup {E("extend", p, [l |-> 1, r |-> 0, u |-> 0, d |-> 2]) : p \in ips}
          \cup {E("scale", p, ScaleArg(fx, fy, fv, ft)) :
             p \in ips, fx \in {NoFac, NumF(R(-2))}, fy \in {NoFac, Fac(R(3), m1)}, fv \in {NoFac, NumF(R(2))},
             ft \in {NoFac, NumF(R(2)), Fac(R(5), sec)}}
          \cup {Ev("t", "unit", 1, 0, 1, TRUE, [axe |-> x, u |-> u]) :
             x \in {"x", "y", "values", "time"}, u \in {mm, m1, vms, sec, msec}}
          \cup {Ev("t", "origin", 1, 0, 1, TRUE, [x |-> One, y |-> <<1, 2>>])}
          \cup {E("fillv", p, [crop |-> FALSE, val |-> [c \in 1..t.nc |-> R(c)]]) : p \in ips}
          \cup {E("reduce", p, [fact |-> 1]) : p \in ips}
         [] Mix = "stat" ->
          {N("mean", [n |-> k]) : k \in 0..2}
          \cup (IF t.nc = 1 THEN {N(x, [n |-> k]) : x \in {"min", "max"}, k \in 0..2}
                ELSE {N("mke", [z |-> 0]), N("tke", [z |-> 0]), N("meantke", [z |-> 0])}
                     \cup {N("reynolds", [n |-> 1, i |-> i, j |-> 2]) : i \in {1, 2}})
          \cup {N("fluct", [n |-> k]) : k \in 0..1}
          \cup {Q("cum", [sf |-> b]) : b \in BOOLEAN}
          \cup {N("tprof", [c |-> t.nc, comp |-> IF t.nc = 1 THEN "values" ELSE "comp_y", ind |-> TRUE, x |-> R(x), y |-> R(y), wt |-> wt]) :
                  x \in 0..2, y \in 0..1, wt \in {<<>>} \cup
                    (IF NT(t) > 1 THEN {<<t.ts[1], QSub(LastTime(t), <<1, 4>>)>>} ELSE {})}
         [] Mix = "time" ->
          {N("interp", [time |-> x]) : x \in {R(-2), R(-1), <<-1, 2>>, R(0), <<1, 2>>, R(2), R(3)}}
          \cup {E("reducet", p, [n |-> n, mean |-> b]) : p \in ips, n \in 1..3, b \in BOOLEAN}
          \cup {E("augt", p, [fact |-> n]) : p \in IF NT(t) > 1 THEN ips ELSE {}, n \in 1..3}
          \cup {Ev("t", "addfield", 1, 2, 3, FALSE, [sub |-> b]) : b \in BOOLEAN}
          \cup {Ev("t", "addt", 1, 1, 3, FALSE, [sub |-> b]) : b \in BOOLEAN}
          \cup {N("addq", [kind |-> "unum", q |-> <<R(3)>>, u |-> vms])}
          \cup {N("mulq", [kind |-> "num", q |-> <<R(-2)>>, u |-> UNone])}
          \cup {N("divq", [kind |-> "unum", q |-> <<R(4)>>, u |-> m1])}
          \cup {N("neg", [z |-> 0])}
          \cup (IF t.nc = 1 THEN {N("pow", [n |-> 2]), Ev("t", "mult", 1, 1, 3, FALSE, [z |-> 0]),
                                  Ev("t", "divfield", 1, 2, 3, FALSE, [z |-> 0])} ELSE {})

Next ==
    /\ Len(hist) <= Depth + 1
    /\ NT(ws[1]) > 0 /\ Len(ws[1].ax) > 1 /\ Len(ws[1].ay) > 1
    /\ \E e \in Calls(ws) :
         LET r == TLCEval(Run(ws, e)) IN
         /\ r.ok \/ Len(hist) = Depth + 1
         /\ hist' = Append(hist, e)
         /\ ws' = r.ws
         /\ Len(hist') = Depth + 2 => PrintT("PROG " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
WellFormed == \A i \in 1..NS : WFObj(ws[i])
Perm(a, f) == AddField(AddField(TEmpty(f[1].nc), f[1], a[1], sec), f[2], a[2], sec)
Laws ==
    Len(hist) = 2 =>
    LET t == ws[1]
        f == ws[2]
        n == NT(t)
    IN
    \* the order of additions does not matter
    /\ n > 1 => Perm(<<t.ts[1], t.ts[2]>>, <<t.fs[1], t.fs[2]>>) = Perm(<<t.ts[2], t.ts[1]>>, <<t.fs[2], t.fs[1]>>)
    \* adding then removing gives the set back
    /\ LET g == AddField(t, f, <<1, 3>>, t.ut)
           k == CHOOSE x \in 1..NT(g) : g.ts[x] = <<1, 3>>
       IN  [g EXCEPT !.ts = Drop(g.ts, <<k - 1>>), !.fs = Drop(g.fs, <<k - 1>>)] = t
    \* the same instant in another unit
    /\ AddField(t, f, R(3), sec) = AddField(t, f, R(3000), msec)
    \* the mean of the fluctuations is zero wherever it is given
    /\ LET z == TMean(Fluct(t, 0), 0) IN
       \A c \in 1..t.nc : \A q \in Range1(ValidSeq(z, c)) : q = Zero
    \* the mean lies between the extremes
    /\ t.nc = 1 => \A i \in 1..2 : \A j \in 1..2 :
          LET a == TStat(t, 0, QMinSeq).v[1][i][j]
              b == TMean(t, 0).v[1][i][j]
              c == TStat(t, 0, QMaxSeq).v[1][i][j]
          IN  /\ (a = M) = CumMasked(t, i, j) /\ (b = M) = (a = M) /\ (c = M) = (a = M)
              /\ b # M => QLe(a, b) /\ QLe(b, c)
    \* resampling
    /\ \A k \in 1..n : FieldAt(t, t.ts[k]) = t.fs[k]
    /\ ReduceT(t, 1, TRUE) = t
    /\ n > 1 => /\ AugmentT(t, 1) = t
                /\ ReduceT(AugmentT(t, 2), 2, FALSE).ts = SubSeq(t.ts, 1, n - 1)
                /\ Sorted(AugmentT(t, 3).ts)
    /\ LET h == FillT(t, "linear", <<>>) IN
       \A k \in 1..n : \A x \in ValidCells(t.fs[k]) : \A c \in 1..t.nc :
          h.fs[k].v[c][x[1]][x[2]] = t.fs[k].v[c][x[1]][x[2]]
    \* operations of a set are those of its fields
    /\ TMap(TMap(t, LAMBDA g : Rotate(g, 90)), LAMBDA g : Rotate(g, 270)) = t
    /\ WFTemp(TMap(t, LAMBDA g : Scale(g, <<R(-2), m1>>, <<R(3), UNone>>, <<R(2), UNone>>)))
    /\ Live(t) => Live(TCropBorder(t, FALSE))
=============================================================================
