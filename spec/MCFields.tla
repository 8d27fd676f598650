------------------------------ MODULE MCFields ------------------------------
(* Small-scope exploration of the calls on fields: every mask of every small *)
(* grid, every call of a family, to a bounded depth.  Checks the laws that   *)
(* make the operators of Fields.tla mean what the properties say, and prints *)
(* each explored history so that it can be replayed on the real code.        *)
EXTENDS IMT, Json, IOUtils

CONSTANTS Mix, Depth, MaxCells

VARIABLES ws, hist
vars == <<ws, hist>>
NS == 6
Blank == [i \in 1..NS |-> Empty]

mm == <<-3, 1, 0, 0, 0, 0, 0>>
m1 == <<0, 1, 0, 0, 0, 0, 0>>
ms == <<0, 1, -1, 0, 0, 0, 0>>
mms == <<-3, 1, -1, 0, 0, 0, 0>>
Axes(n) == CASE n = 1 -> {<<R(2)>>}
             [] n = 2 -> {<<R(0), R(1)>>, <<R(-2), R(1)>>}
             [] n = 3 -> {<<R(-1), R(0), R(1)>>, <<R(1), <<3, 2>>, R(4)>>}
             [] n = 4 -> {<<R(0), R(2), R(4), R(6)>>}
Shapes == {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}
Val(c, i, j) == <<(3 * i - 4 * j + i * j) * (IF c = 1 THEN 1 ELSE -1) + c, IF (i + j) % 2 = 0 THEN 1 ELSE 2>>
Red(q) == Norm(q[1], q[2])
MkEv(nc, ax, ay, mask, ux, uy, uv, d) ==
    [m |-> "f", op |-> "mk", s |-> 0, t |-> 0, d |-> d, ip |-> FALSE,
     a |-> [nc |-> nc, ax |-> ax, ay |-> ay, ux |-> ux, uy |-> uy, uv |-> uv,
            mask |-> mask,
            v |-> [c \in 1..nc |-> [i \in 1..Len(ax) |-> [j \in 1..Len(ay) |-> Red(Val(c, i, j))]]]]]
Masks(nx, ny) == {f \in [1..nx -> [1..ny -> BOOLEAN]] : \E i \in 1..nx : \E j \in 1..ny : ~f[i][j]}
Ev(op, s, t, d, ip, a) == [m |-> "f", op |-> op, s |-> s, t |-> t, d |-> d, ip |-> ip, a |-> a, ret |-> <<>>]
Run(w, e) == Step(w, e @@ [ret |-> <<>>], w)

\* one object is made, from every small grid and mask
Init ==
    \E sh \in Shapes : \E nc \in {1, 2} : \E ax \in Axes(sh[1]) : \E ay \in Axes(sh[2]) :
    \E mask \in Masks(sh[1], sh[2]) :
      /\ sh[1] * sh[2] <= MaxCells
      /\ ax[1] = R(2) \/ ay[1] = R(2) \/ ax[1] # ay[1] \/ nc = 1
      /\ LET e == MkEv(nc, ax, ay, mask, mm, m1, ms, 1)
         IN  hist = <<e>> /\ ws = TLCEval(Run(Blank, e).ws)

Angles == {0, 90, 180, 270, -90, 450, 45}
Nat4 == {<<0, 1, 0, 2>>, <<1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 2>>, <<2, 1, 1, 1>>, <<0, 0, 0, 0>>}
Fac(q, u) == [kind |-> "unum", q |-> q, u |-> u]
NoFac == [kind |-> "none", q |-> One, u |-> UNone]
NumF(q) == [kind |-> "num", q |-> q, u |-> UNone]
ScaleArg(fx, fy, fv) == [fx |-> fx, fy |-> fy, fv |-> fv, sx |-> <<fx.q, fx.u>>,
                         sy |-> <<fy.q, fy.u>>, sv |-> <<fv.q, fv.u>>]
Facs == {NoFac, NumF(R(2)), NumF(R(-1)), Fac(R(3), m1)}
Wins(ax) == LET n == Len(ax) IN
    {<<>>, <<ax[1], ax[n]>>, <<ax[1], ax[1]>>, <<ax[n], QAdd(ax[n], One)>>,
     <<QSub(ax[1], R(3)), QHalf(QAdd(ax[1], ax[n]))>>, <<QAdd(ax[n], One), QAdd(ax[n], R(2))>>,
     <<QSub(ax[1], R(3)), QSub(ax[1], R(2))>>, <<ax[n], QSub(ax[1], One)>>}
IWins(n) == {<<i, j>> : i \in -1..n, j \in 0..n} \cap {w \in (-1..n) \X (0..n) : w[1] < n}
\* interior windows of coordinates always hold a point
Holds(ax, w) == w = <<>> \/ CropErr(ax, w[1], w[2]) \/ InWin(ax, w[1], w[2]) # <<>>

Two(f) == NX(f) > 1 /\ NY(f) > 1
\* the calls of a family from a workspace; slot 1 is the field, 2 the result
Calls(w) ==
    LET f == w[1]
        ips == {<<FALSE, 2>>, <<TRUE, 1>>}
    IN CASE Mix = "crop" ->
          {Ev("crop", 1, 0, p[2], p[1], [mode |-> "val", wx |-> wx, wy |-> wy]) :
              p \in ips, wx \in {x \in Wins(f.ax) : Holds(f.ax, x)},
              wy \in {y \in Wins(f.ay) : Holds(f.ay, y)} \cap {<<>>, <<f.ay[1], f.ay[1]>>}}
          \cup {Ev("crop", 1, 0, 2, FALSE, [mode |-> "val", wx |-> <<>>, wy |-> wy]) :
              wy \in {y \in Wins(f.ay) : Holds(f.ay, y)}}
          \cup {Ev("crop", 1, 0, p[2], p[1], [mode |-> "ind", wx |-> wx, wy |-> <<>>]) :
              p \in ips, wx \in IWins(NX(f))}
          \cup {Ev("crop", 1, 0, 2, FALSE, [mode |-> "ind", wx |-> <<0, 0>>, wy |-> wy]) :
              wy \in IWins(NY(f))}
          \cup {Ev("cropb", 1, 0, p[2], p[1], [hard |-> h]) :
              p \in ips, h \in IF ValidCells(f) # {} /\ NX(HardLoop(SoftCrop(f))) > 0
                                  /\ NY(HardLoop(SoftCrop(f))) > 0 THEN {FALSE, TRUE} ELSE {FALSE}}
         [] Mix = "rotate" ->
          {Ev("rotate", 1, 0, p[2], p[1], [angle |-> x]) : p \in ips, x \in Angles}
         [] Mix = "extend" ->
          IF ~Two(f) THEN {}
          ELSE {Ev("extend", 1, 0, p[2], p[1], [l |-> R(n[1]), r |-> R(n[2]), u |-> R(n[3]), d |-> R(n[4]),
                     ind |-> TRUE, val |-> M]) : p \in ips, n \in Nat4}
         [] Mix = "scale" ->
          {Ev("scale", 1, 0, p[2], p[1], ScaleArg(fx, fy, fv)) :
              p \in ips, fx \in Facs, fy \in {NoFac, NumF(R(-2))}, fv \in {NoFac, Fac(R(-2), m1)}}
          \cup {Ev("unit", 1, 0, 1, TRUE, [axe |-> x, u |-> u]) :
              x \in {"x", "y", "values"}, u \in {mm, m1, ms, mms}}
          \cup {Ev("origin", 1, 0, 1, TRUE, [x |-> x, y |-> y]) : x \in {Zero, One}, y \in {R(-2), <<1, 2>>}}
         [] Mix = "arith" ->
          {Ev("neg", 1, 0, 2, FALSE, [z |-> 0]), Ev("abs", 1, 0, 2, FALSE, [z |-> 0]),
           Ev("addq", 1, 0, 2, FALSE, [kind |-> "num", q |-> <<R(3)>>, u |-> UNone]),
           Ev("addq", 1, 0, 2, FALSE, [kind |-> "unum", q |-> <<R(3)>>, u |-> mms]),
           Ev("addq", 1, 0, 2, FALSE, [kind |-> "unum", q |-> <<R(3)>>, u |-> m1]),
           Ev("rsubq", 1, 0, 2, FALSE, [kind |-> "num", q |-> <<R(3)>>, u |-> UNone]),
           Ev("mulq", 1, 0, 2, FALSE, [kind |-> "unum", q |-> <<R(3)>>, u |-> mm]),
           Ev("mulq", 1, 0, 2, FALSE, [kind |-> "num", q |-> <<R(0)>>, u |-> UNone]),
           Ev("divq", 1, 0, 2, FALSE, [kind |-> "unum", q |-> <<R(-2)>>, u |-> mm]),
           Ev("pow", 1, 0, 2, FALSE, [n |-> 2]), Ev("pow", 1, 0, 2, FALSE, [n |-> 3])}
          \cup {Ev("add", 1, 1, 2, FALSE, [sub |-> x]) : x \in BOOLEAN}
          \cup (IF f.nc = 1 THEN {Ev("mulf", 1, 1, 2, FALSE, [z |-> 0]),
                                  Ev("divf", 1, 1, 2, FALSE, [z |-> 0])} ELSE {})
          \cup (IF w[2].k = "F" THEN {Ev("add", 1, 2, 3, FALSE, [sub |-> x]) : x \in BOOLEAN}
                                     \cup (IF w[2].nc = 1 THEN {Ev("mulf", 1, 2, 3, FALSE, [z |-> 0])} ELSE {})
                ELSE {Ev("rotate", 1, 0, 2, FALSE, [angle |-> 180]),
                      Ev("crop", 1, 0, 2, FALSE, [mode |-> "ind", wx |-> <<0, 0>>, wy |-> <<>>])})
         [] Mix = "masked" ->
          {Ev("stat", 1, 0, 0, FALSE, [kind |-> k]) :
              k \in IF f.nc = 1 THEN {"min", "max", "mean", "median"} ELSE {"min", "max"}}
          \cup {Ev("norm", 1, 0, 0, FALSE, [n |-> n, perpoint |-> b]) : n \in {1, 2}, b \in BOOLEAN}
          \cup {Ev("iter", 1, 0, 0, FALSE, [z |-> 0])}
          \cup (IF f.nc = 2 THEN {Ev("mag2", 1, 0, 0, FALSE, [sf |-> b]) : b \in BOOLEAN}
                ELSE {Ev("scatter", 1, 0, 2, FALSE, [mask |-> <<>>])})
          \cup (IF f.nc = 1 /\ Two(f) THEN {Ev("intsurf", 1, 0, 0, FALSE, [wx |-> <<>>, wy |-> <<>>]),
                        Ev("intline", 1, 0, 0, FALSE, [dir |-> "y", w |-> <<f.ay[1], f.ay[NY(f)]>>])} ELSE {})
         [] Mix = "lookup" ->
          {Ev("getv", 1, 0, 0, FALSE, [ind |-> TRUE, x |-> R(x), y |-> R(y)]) :
              x \in 0..NX(f), y \in 0..(NY(f) - 1)}
          \cup {Ev("ionaxe", 1, 0, 0, FALSE, [axis |-> k, q |-> Red(<<x, 4>>), kind |-> d]) :
              k \in {1, 2}, x \in {-9, -4, -1, 0, 2, 4, 6, 8, 9}, d \in {"bounds", "nearest", "decimal"}}
          \cup (IF Two(f) THEN
                {Ev("profile", 1, 0, 2, FALSE, [dir |-> d, how |-> h, c |-> f.nc, w |-> <<Red(x)>>]) :
                   d \in {"x", "y"}, h \in {"linear", "nearest"},
                   x \in {<<-1, 1>>, <<0, 1>>, <<1, 2>>, <<1, 1>>, <<3, 1>>}}
                \cup {Ev("profile", 1, 0, 2, FALSE, [dir |-> d, how |-> "all", c |-> 1, w |-> <<>>]) : d \in {"x", "y"}}
                ELSE {})
         [] Mix = "fill" ->
          IF ~Two(f) THEN {}
          ELSE {Ev("fillv", 1, 0, p[2], p[1], [crop |-> b, val |-> [c \in 1..f.nc |-> R(7 * c)]]) :
                 p \in ips, b \in {FALSE} \cup (IF Two(SoftCrop(f)) THEN {TRUE} ELSE {})}
         [] Mix = "reso" ->
          {Ev("reduce", 1, 0, p[2], p[1], [fact |-> n]) :
               p \in ips, n \in {0, 1} \cup (IF NX(f) > 3 /\ NY(f) > 3 THEN {2} ELSE {})}
         [] Mix = "create" ->
          {Ev("copy", 1, 0, 2, FALSE, [z |-> 0])}
          \cup (IF Two(f) THEN {Ev("maskf", 1, 0, 2, FALSE, [z |-> 0])} ELSE {})
          \cup (IF f.nc = 2 /\ Two(f) THEN {Ev("comp", 1, 0, 2, FALSE, [c |-> c]) : c \in {1, 2}} ELSE {})

Usable(f) == f.k = "F" /\ NX(f) > 0 /\ NY(f) > 0 /\ NX(f) <= 7 /\ NY(f) <= 7
Relational == {"getv"}
Next ==
    /\ Len(hist) <= Depth
    /\ Usable(ws[1])
    /\ \E e \in Calls(ws) :
         LET r == TLCEval(Run(ws, e)) IN
         /\ r.ok \/ Len(hist) = Depth        \* a refused call changes nothing
         /\ hist' = Append(hist, e)
         /\ ws' = r.ws
         /\ Len(hist') = Depth + 1 => PrintT("PROG " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every object in hand is well formed, whatever was done
WellFormed == \A i \in 1..NS : WFObj(ws[i])
\* nothing but the declared slots changes is built in Step (Put); the laws:
Laws ==
    Len(hist) = 1 =>
    LET f == ws[1]
        nx == NX(f)
        ny == NY(f)
        w0 == <<f.ax[1], f.ax[nx]>>
        h0 == <<f.ay[1], f.ay[ny]>>
    IN
    /\ CropVal(f, w0, h0) = f
    /\ CropInd(f, <<0, nx - 1>>, <<0, ny - 1>>) = f
    /\ Rotate(Rotate(f, 90), -90) = f /\ Rotate(f, 360) = f /\ Rotate(f, 180) = Rotate(Rotate(f, 90), 90)
    /\ Cardinality(ValidCells(Rotate(f, 90))) = Cardinality(ValidCells(f))
    /\ Neg(Neg(f)) = f
    /\ AddF(f, Neg(f), 1) = AddF(f, f, -1)
    /\ AddF(f, f, 1) = MulQ(f, R(2), UNone)
    /\ \A c \in 1..f.nc : \A q \in Range1(ValidSeq(AddF(f, f, -1), c)) : q = Zero
    /\ Scale(Scale(f, <<R(-2), m1>>, <<R(3), UNone>>, <<R(2), ms>>),
             <<<<-1, 2>>, UInv(m1)>>, <<<<1, 3>>, UNone>>, <<<<1, 2>>, UInv(ms)>>) = f
    /\ ChangeUnit(ChangeUnit(f, "x", m1), "x", f.ux) = f
    /\ PhysField(f, ChangeUnit(ChangeUnit(f, "values", mms), "y", mm))
    /\ Origin(Origin(f, One, R(2)), R(-1), R(-2)) = f
    /\ ReduceSp(f, 1) = f
    /\ ~AnyMasked(FillValue(f, [c \in 1..f.nc |-> One]))
    /\ KeepsValid(f, FillValue(f, [c \in 1..f.nc |-> One]))
    /\ SoftCrop(SoftCrop(f)) = SoftCrop(f)
    /\ Cardinality(ValidCells(SoftCrop(f))) = Cardinality(ValidCells(f))
    /\ ~AnyMasked(CropBorder(f, TRUE))
    /\ Two(f) => /\ CropInd(Extend(f, 1, 2, 1, 3, M), <<1, nx>>, <<3, ny + 2>>) = f
                 /\ WFField(Extend(f, 1, 2, 1, 3, M))
                 /\ ValidCells(Extend(f, 1, 0, 0, 0, M)) = {<<c[1] + 1, c[2]>> : c \in ValidCells(f)}
                 /\ SwapXY(SwapXY(f)) = f
    /\ (Two(f) /\ ~AnyMasked(f)) =>
          \* a mirror image about an end: the old part is unchanged, the new one symmetric
          LET g == Mirror(f, "x", f.ax[nx], 0, [c \in 1..f.nc |-> One]) IN
          /\ SubGrid(g, Span(1, nx), Span(1, ny)) = f
          /\ \A c \in 1..f.nc : \A k \in 1..(NX(g) - nx) : \A j \in 1..ny :
                (nx > 1 /\ QSub(f.ax[2], f.ax[1]) = QSub(f.ax[nx], f.ax[nx - 1]) /\ nx - k >= 1
                 /\ g.v[c][nx + k][j] # M)
                  => g.v[c][nx + k][j] = g.v[c][nx - k][j]
    /\ f.nc = 1 => /\ \A q \in Range1(ValidSeq(f, 1)) :
                        QLe(QMinSeq(ValidSeq(f, 1)), q) /\ QLe(q, QMaxSeq(ValidSeq(f, 1)))
                   /\ \A c \in ValidCells(f) : ValueAt(f, 1, f.ax[c[1]], f.ay[c[2]]) = {f.v[1][c[1]][c[2]]}
                   /\ \A i \in 1..nx : Bracket(f.ax, f.ax[i]) = <<i - 1, i - 1>> /\ Nearest(f.ax, f.ax[i]) = i - 1
                                       /\ Decimal(f.ax, f.ax[i]) = R(i - 1)
=============================================================================
