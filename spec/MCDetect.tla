------------------------------ MODULE MCDetect ------------------------------
(* Small-scope exploration of the detection of critical points: every field  *)
(* of one cell with velocities among Dirs, or of two cells with velocities   *)
(* among some of them.                                                       *)
EXTENDS IMT, Json, IOUtils

CONSTANTS Mix, Depth, NDir

VARIABLES ws, hist
vars == <<ws, hist>>
NS == 6
Blank == [i \in 1..NS |-> Empty]

mm == <<-3, 1, 0, 0, 0, 0, 0>>
s1 == <<0, 0, 1, 0, 0, 0, 0>>
v1 == <<0, 1, -1, 0, 0, 0, 0>>
Dir(k) == CASE k = 1 -> <<1, 2>> [] k = 2 -> <<-1, 1>> [] k = 3 -> <<-2, -1>> [] k = 4 -> <<2, -1>>
            [] k = 5 -> <<3, 1>> [] k = 6 -> <<-1, 4>> [] k = 7 -> <<-1, -3>>
Field(nx, ny, dx, dy, at) ==
    [nc |-> 2, ax |-> [i \in 1..nx |-> R(dx * i)], ay |-> [j \in 1..ny |-> R(dy * j)],
     v |-> [c \in 1..2 |-> [i \in 1..nx |-> [j \in 1..ny |-> R(Dir(at[i][j])[c])]]],
     mask |-> [i \in 1..nx |-> [j \in 1..ny |-> FALSE]], ux |-> mm, uy |-> mm, uv |-> v1, maskarg |-> "none"]
Ev(m, op, s, t, d, ip, a) == [m |-> m, op |-> op, s |-> s, t |-> t, d |-> d, ip |-> ip, a |-> a]
Run(w, e) == Step(w, e @@ [ret |-> <<>>], w)
Grids == IF Mix = "one" THEN {<<2, 2, dx, dy>> : dx \in {1, 3}, dy \in {1}} ELSE {<<3, 2, 1, 2>>, <<2, 3, 1, 1>>}
Init == \E g \in Grids : \E at \in [1..g[1] -> [1..g[2] -> 1..NDir]] :
    LET e == Ev("f", "mk", 0, 0, 1, FALSE, Field(g[1], g[2], g[3], g[4], at))
    IN  hist = <<e>> /\ ws = Run(Blank, e).ws
Next ==
    /\ Len(hist) < Depth + 1
    /\ \E k \in {"pbi", "pbi_cell"} :
         /\ hist' = Append(hist, Ev("cp", "detect", 1, 0, 0, FALSE, [kind |-> k, time |-> R(3), us |-> "s", u |-> s1]))
         /\ ws' = ws
         /\ Len(hist') = Depth + 1 => PrintT("PROG " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
WellFormed == \A i \in 1..NS : WFObj(ws[i])
F == ws[1]
Opp(f) == [f EXCEPT !.v = [c \in 1..2 |-> [i \in 1..Len(f.ax) |-> [j \in 1..Len(f.ay) |-> QSub(Zero, f.v[c][i][j])]]]]
\* the image in a mirror along y: x becomes -x
Mir(f) == LET n == Len(f.ax) IN
    [f EXCEPT !.ax = [i \in 1..n |-> QSub(Zero, f.ax[n + 1 - i])],
              !.v = [c \in 1..2 |-> [i \in 1..n |-> [j \in 1..Len(f.ay) |->
                        IF c = 1 THEN QSub(Zero, f.v[1][n + 1 - i][j]) ELSE f.v[2][n + 1 - i][j]]]]]
GridCells(f) == {<<i, j>> : i \in 1..(Len(f.ax) - 1), j \in 1..(Len(f.ay) - 1)}
AllClear(f) == \A c \in GridCells(f) : ~CUnclear(CCorners(f, c[1], c[2]))
CIndex(f, c) == CWind(CCorners(f, c[1], c[2]))
VAt(f, i, j) == <<f.v[1][i][j], f.v[2][i][j]>>
Border(f) == IF Len(f.ax) = 3 THEN <<VAt(f, 1, 1), VAt(f, 2, 1), VAt(f, 3, 1), VAt(f, 3, 2), VAt(f, 2, 2), VAt(f, 1, 2)>>
             ELSE <<VAt(f, 1, 1), VAt(f, 2, 1), VAt(f, 2, 2), VAt(f, 2, 3), VAt(f, 1, 3), VAt(f, 1, 2)>>
Turns(b) == LET n == Len(b)
                 s[k \in 0..n] == IF k = 0 THEN 0 ELSE s[k - 1] + CTurn(b[k], b[(k % n) + 1])
             IN  s[n]
Swap(ks, a, b) == {IF k = a THEN b ELSE IF k = b THEN a ELSE k : k \in ks}
\* a cell winds once at most; opposite fields and mirror images have the same saddles, and foci and nodes turned over
DetectLaws(f) ==
    /\ \A c \in GridCells(f) : CIndex(f, c) \in {-1, 0, 1}
    /\ Cardinality(GridCells(f)) = 2 =>
         LET cs == GridCells(f) IN
         Turns(Border(f)) = CIndex(f, CHOOSE c \in cs : TRUE) + CIndex(f, CHOOSE c \in cs : c # (CHOOSE b \in cs : TRUE))
    /\ \A c \in GridCells(f) :
         /\ CCell(Opp(f), c[1], c[2]) = Swap(Swap(CCell(f, c[1], c[2]), 1, 2), 3, 4)
         /\ CCell(Mir(f), Len(f.ax) - c[1], c[2]) = Swap(CCell(f, c[1], c[2]), 1, 2)
Laws == Len(hist) = 1 /\ AllClear(F) => DetectLaws(F)
=============================================================================
