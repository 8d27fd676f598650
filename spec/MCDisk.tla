------------------------------- MODULE MCDisk -------------------------------
(* Small-scope exploration of the calls on files: histories of exports,      *)
(* changes and imports under a few names ("own"), every order and every      *)
(* subset of the rows of small tables ("text"), small pictures and buffers   *)
(* ("image").                                                                *)
EXTENDS IMT, Json, IOUtils

CONSTANTS Mix, Depth, Rich

VARIABLES ws, hist
vars == <<ws, hist>>
NS == 6
Blank == [i \in 1..NS |-> Empty]

mm == <<-3, 1, 0, 0, 0, 0, 0>>
m1 == <<0, 1, 0, 0, 0, 0, 0>>
s1 == <<0, 0, 1, 0, 0, 0, 0>>
kg == <<0, 0, 0, 1, 0, 0, 0>>
Ev(m, op, s, d, ip, a) == [m |-> m, op |-> op, s |-> s, t |-> 0, d |-> d, ip |-> ip, a |-> a]
Nm(dir, stem, ext) == [dir |-> dir, stem |-> stem, ext |-> ext]
Run(w, e) == Step(w, e @@ [ret |-> <<>>], w)
RECURSIVE RunAll(_, _)
RunAll(w, es) == IF es = <<>> THEN w ELSE RunAll(TLCEval(Run(w, es[1]).ws), Tail(es))
MkF(nc, d) == Ev("f", "mk", 0, d, FALSE,
    [nc |-> nc, ax |-> <<R(0), R(1)>>, ay |-> <<R(2), R(4)>>, ux |-> mm, uy |-> m1, uv |-> kg,
     v |-> [c \in 1..nc |-> <<<<R(c), R(2)>>, <<R(3), <<1, 2>>>>>>],
     mask |-> <<<<FALSE, TRUE>>, <<FALSE, FALSE>>>>])
MkP(d) == Ev("p", "mk", 0, d, FALSE, [x |-> <<R(0), R(1), R(5)>>, y |-> <<R(1), R(2), R(3)>>,
                                      mask |-> <<FALSE, TRUE, FALSE>>, ux |-> mm, uy |-> kg])
MkS(d) == Ev("s", "mk", 0, d, FALSE, [xy |-> <<<<R(0), R(1)>>, <<R(1), R(5)>>>>, v |-> <<R(1), <<3, 2>>>>, ori |-> FALSE,
                                      or |-> <<>>, ux |-> mm, uy |-> m1, uv |-> s1])
Disk == Ev("d", "disk", 0, 6, FALSE, [z |-> 0])
Own == \E o \in 1..4 :
    LET h == <<Disk, CASE o = 1 -> MkF(1, 1) [] o = 2 -> MkF(2, 1) [] o = 3 -> MkP(1) [] o = 4 -> MkS(1),
               IF o = 1 THEN MkP(2) ELSE MkF(1, 2)>>
    IN  hist = h /\ ws = RunAll(Blank, h)

(* tables: the rows of a small grid in any order, some missing, some without value *)
GridRows(nx, ny, nc, nan) ==
    [n \in 1..(nx * ny) |->
        <<Norm(((n - 1) \div ny) * 3 - 1, 2), R(((n - 1) % ny) * 2)>>
        \o [c \in 1..nc |-> IF n = nan /\ c = nc THEN NAN ELSE R(10 * c + n)]]
Perms(n) == {p \in [1..n -> 1..n] : Cardinality({p[i] : i \in 1..n}) = n}
Injs(n, k) == {p \in [1..k -> 1..n] : Cardinality({p[i] : i \in 1..k}) = k}
Sizes == {<<2, 2>>, <<1, 3>>, <<3, 1>>} \cup (IF Rich > 1 THEN {<<2, 3>>} ELSE {})
Text == \E sz \in Sizes : \E nc \in {1, 2} : \E nan \in {0, 2} :
        \E k \in {sz[1] * sz[2] - 1, sz[1] * sz[2]} : \E p \in Injs(sz[1] * sz[2], k) :
    LET rows == GridRows(sz[1], sz[2], nc, nan)
        h == <<Disk, Ev("d", "put", 0, 6, FALSE, [nm |-> Nm("", "t", ".txt"), c |-> <<"tab", Pick(rows, p)>>])>>
    IN  hist = h /\ ws = RunAll(Blank, h)

Image == \E w \in 2..3 : \E h \in 2..3 : \E z \in {0, 3} :
    LET pix == [j \in 1..h |-> [i \in 1..w |-> R(((j * 50 + i * 70 + z) * 7) % 256)]]
        hs == <<Disk, Ev("d", "put", 0, 6, FALSE, [nm |-> Nm("", "t", ".png"), c |-> <<"pix", pix>>])>>
    IN  hist = hs /\ ws = RunAll(Blank, hs)
Pre == IF Mix = "own" THEN 3 ELSE 2
Init == CASE Mix = "own" -> Own [] Mix = "text" -> Text [] Mix = "image" -> Image

Names == {Nm(d, s, x) : d \in {"", "no/"}, s \in {"a"}, x \in {"", ".imt", ".cimt"}} \cup {Nm("sub/", "a", ".cimt")}
U3 == [ux |-> mm, uy |-> m1, uv |-> kg]
DavArgs(w, h, nc, dx, dy, flag) == U3 @@ [dx |-> dx, dy |-> dy, x0 |-> R(1), y0 |-> <<1, 2>>, sc |-> R(2), off |-> <<1, 2>>,
    grid |-> 1, ints |-> TRUE, fmt |-> 3, flag |-> IF flag THEN [j \in 1..h |-> [i \in 1..w |-> (i + j) % 3]] ELSE <<>>,
    ext |-> IF nc = 2 THEN ".vc7" ELSE ".im7",
    fr |-> [c \in 1..nc |-> [j \in 1..h |-> [i \in 1..w |-> R((i * j + i + c) % 4)]]]]
Calls(w) ==
    CASE Mix = "own" ->
        {Ev("d", "save", s, 6, FALSE, [nm |-> n, comp |-> c]) : s \in {1, 2}, n \in Names, c \in BOOLEAN}
        \cup {Ev("d", "load", 0, 3, FALSE, [nm |-> n]) : n \in Names \cup {Nm("", "a.imt", ".cimt"), Nm("", "keep", "")}}
        \cup {Ev("d", "msave", 1, 6, FALSE, [nm |-> Nm("", "a", ".mat")]),
              Ev("d", "mload", 0, 3, FALSE, [nm |-> Nm("", "a", ".mat")])}
        \cup (IF w[1].k = "F" THEN {Ev("f", "setunit", 1, 1, TRUE, [axe |-> "x", u |-> m1])} ELSE {})
        \cup (IF w[1].k = "P" THEN {Ev("p", "setunit", 1, 1, TRUE, [axe |-> "x", u |-> m1])} ELSE {})
        \cup (IF w[1].k = "S" THEN {Ev("s", "poke", 1, 1, TRUE, [i |-> 0, xy |-> <<R(7), R(8)>>])} ELSE {})
      [] Mix = "text" ->
        LET nc == Len(w[6].fs["t.txt"][2][1]) - 2 IN
        {Ev("d", "aload", 0, 3, FALSE, U3 @@ [nm |-> Nm("", "t", ".txt"), kind |-> IF nc = 1 THEN "sf" ELSE "vf",
                                              cols |-> IF nc = 1 THEN <<1, 2, 3>> ELSE <<1, 2, 3, 4>>])}
        \cup {Ev("d", "aload", 0, 3, FALSE, U3 @@ [nm |-> Nm("", "t", ".txt"), kind |-> "pts", cols |-> c]) :
                c \in {<<1, 2>>, <<2, 1>>, <<1, 2, 3>>}}
        \cup {Ev("d", "aload", 0, 3, FALSE, U3 @@ [nm |-> Nm("", "t", ".txt"), kind |-> "prof", cols |-> <<2, 3>>])}
      [] Mix = "image" ->
        {Ev("d", "pload", 0, 3, FALSE, U3 @@ [nm |-> Nm("", "t", ".png"), ax |-> ax, ay |-> <<>>]) :
            ax \in {<<>>, <<R(1), R(3)>>, <<R(0), <<1, 2>>, R(2)>>}}
        \cup {Ev("d", "dav", 0, 3, FALSE, DavArgs(ww, hh, nc, dx, dy, fl)) :
                ww \in {2, 3}, hh \in {2, 3}, nc \in {1, 2}, dx \in {R(2), R(-1)}, dy \in {R(1), R(-3)}, fl \in BOOLEAN}
Next ==
    /\ Len(hist) < Depth + Pre
    /\ \E e \in Calls(ws) :
         LET r == TLCEval(Run(ws, e)) IN
         /\ r.ok \/ Len(hist) = Depth + Pre - 1
         /\ hist' = Append(hist, e)
         /\ ws' = r.ws
         /\ Len(hist') = Depth + Pre => PrintT("PROG " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
WellFormed == \A i \in 1..NS : WFObj(ws[i])
\* what was last exported under a name is what an import of it gives, whatever happened since
LastSave(n) == \* index in hist of the last export to n, or 0
    LET S == {k \in 1..Len(hist) : hist[k].op = "save" /\ ImtName(hist[k].a.nm, hist[k].a.comp) = n
                                   /\ hist[k].a.nm.dir \in Folders}
    IN  IF S = {} THEN 0 ELSE SetMax(S)
OwnLaws ==
    \A n \in DOMAIN ws[6].fs : ws[6].fs[n][1] = "obj" =>
        LET k == LastSave(n) IN
        k > 0 /\ ws[6].fs[n][2] = RunAll(Blank, SubSeq(hist, 1, k - 1))[hist[k].s]
TextLaws ==
    LET rows == ws[6].fs["t.txt"][2]
        nc == Len(rows[1]) - 2
        cs == IF nc = 1 THEN <<3>> ELSE <<3, 4>>
        f == FieldOf(rows, 1, 2, cs, mm, m1, kg)
    IN  /\ FieldOf(Rev(rows), 1, 2, cs, mm, m1, kg) = f
        /\ FieldOf(AsciiRows(f), 1, 2, cs, mm, m1, kg) = f
        /\ \A n \in 1..Len(rows) : \E i \in 1..NX(f) : \E j \in 1..NY(f) :
             /\ f.ax[i] = rows[n][1] /\ f.ay[j] = rows[n][2]
             /\ f.v[1][i][j] \in {M, rows[n][3]}
        /\ Cardinality(ValidCells(f)) = Cardinality({n \in 1..Len(rows) : \A c \in 3..Len(rows[n]) : rows[n][c] # NAN})
FlipX(fr) == [c \in 1..Len(fr) |-> [j \in 1..Len(fr[c]) |-> Rev(fr[c][j])]]
ImageLaws ==
    LET pix == ws[6].fs["t.png"][2]
        f == PicOf(pix, U3 @@ [ax |-> <<>>, ay |-> <<>>])
    IN  /\ Pix(f) = pix
        \* a buffer read from right to left is the same scalar field
        /\ \A ww \in {2, 3} : \A dy \in {R(1), R(-3)} :
             LET a == DavArgs(ww, 2, 1, R(2), dy, FALSE)
                 b == [a EXCEPT !.dx = R(-2), !.x0 = QAdd(a.x0, R(2 * (ww - 1))), !.fr = FlipX(a.fr)]
             IN  DavOf(a, a.fr) = DavOf(b, b.fr)
Laws == CASE Mix = "own" -> OwnLaws
          [] Mix = "text" -> TextLaws
          [] Mix = "image" -> ImageLaws
=============================================================================
