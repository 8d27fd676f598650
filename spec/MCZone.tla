------------------------------- MODULE MCZone -------------------------------
(* Small-scope exploration of zones and histograms: every field of SizeX x SizeY   *)
(* points with values in 0..MaxV or masked, on uneven axes.                  *)
EXTENDS IMT, Json, IOUtils

CONSTANTS SizeX, SizeY, MaxV

VARIABLES ws, hist
vars == <<ws, hist>>
NS == 6
Blank == [i \in 1..NS |-> Empty]
mm == <<-3, 1, 0, 0, 0, 0, 0>>
m1 == <<0, 1, 0, 0, 0, 0, 0>>
Ev(m, op, s, d, a) == [m |-> m, op |-> op, s |-> s, t |-> 0, d |-> d, ip |-> FALSE, a |-> a]
Run(w, e) == Step(w, e @@ [ret |-> <<>>], w)
Unroll(g) == [i \in 1..SizeX |-> [j \in 1..SizeY |-> g[(i - 1) * SizeY + j]]]
Axis(n, c) == [i \in 1..n |-> R(i + (IF i > 1 THEN c ELSE 0))]
Init == \E g \in [1..(SizeX * SizeY) -> 0..(MaxV + 1)] :
          /\ \E k \in DOMAIN g : g[k] # MaxV + 1
          /\ LET e == Ev("f", "mk", 0, 1, [nc |-> 1, ax |-> Axis(SizeX, 1), ay |-> Axis(SizeY, 2), ux |-> mm, uy |-> m1, uv |-> m1,
                         v |-> <<Unroll([k \in DOMAIN g |-> IF g[k] > MaxV THEN R(0) ELSE R(g[k] - 1)])>>,
                         mask |-> Unroll([k \in DOMAIN g |-> g[k] > MaxV])])
             IN  hist = <<e>> /\ ws = Run(Blank, e).ws
F == ws[1]
\* the centre of mass of a zone of null values is nowhere
Heavy(a) == a.kind = "ponderated" => \A Z \in Zones(ZCells(F, ZBounds(F, a))) : \E c \in Z : ZVal(F, c) # Zero
ZArgs == {a \in [b : {<<R(-1), R(0)>>, <<R(0), R(1)>>, <<R(1), R(2)>>}, rel : {FALSE}, kind : {"center", "ponderated", "extremum"}]
                \cup [b : {<<<<1, 2>>, One>>, <<R(-1), <<-1, 2>>>>}, rel : {TRUE}, kind : {"center", "ponderated", "extremum"}] : Heavy(a)}
HArgs == [bins : {1, 2}, range : {<<>>, <<R(0), R(2)>>}, cum : {FALSE, TRUE}, norm : {FALSE}]
Next ==
    /\ Len(hist) = 1
    /\ \E e \in {Ev("z", "zones", 1, 2, a) : a \in ZArgs} \cup {Ev("z", "hist", 1, 0, a) : a \in HArgs} :
         /\ hist' = Append(hist, e)
         /\ ws' = Run(ws, e).ws
         /\ PrintT("PROG " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
WellFormed == \A i \in 1..NS : WFObj(ws[i])
Opp(f) == [f EXCEPT !.v = <<[i \in 1..SizeX |-> NegSeq(f.v[1][i])]>>]
\* zones are disjoint and cover the points within the bounds; opposite bounds give the zones of the opposite field
ZoneLaws(f, b) ==
    LET A == ZCells(f, b) zs == Zones(A) IN
    /\ UNION zs = A
    /\ \A Y \in zs, Z \in zs : Y = Z \/ (Y \cap Z = {} /\ \A c \in Y, d \in Z : ~ZNext(c, d))
    /\ Zones(ZCells(Opp(f), <<QNeg(b[2]), QNeg(b[1])>>)) = zs
    /\ \A Z \in zs : ZPlaces(Opp(f), Z, "center", b) = ZPlaces(f, Z, "center", b)
\* every valid point is counted once
HistLaws(f) == \A n \in {1, 2, 3} :
    LET h == Run(ws, Ev("z", "hist", 1, 0, [bins |-> n, range |-> <<>>, cum |-> FALSE, norm |-> FALSE])).ret
        c == Run(ws, Ev("z", "hist", 1, 0, [bins |-> n, range |-> <<>>, cum |-> TRUE, norm |-> FALSE])).ret
    IN  QSumSeq(h[2]) = R(Len(ValidSeq(f, 1))) /\ c[2][n] = R(Len(ValidSeq(f, 1)))
Laws == Len(hist) = 1 => /\ \A b \in {<<R(-1), R(0)>>, <<R(0), R(1)>>, <<R(1), R(2)>>} : ZoneLaws(F, b)
                         /\ HistLaws(F)
=============================================================================
