----------------------------- MODULE DiskSteps -----------------------------
(* Objects written to files and read back.                                   *)
(*   [k |-> "DISK", fs]  fs maps the name of a file to what it holds:        *)
(*     <<"obj", x>>      the object x (imt, cimt)                            *)
(*     <<"mat", x>>      the object x (matlab)                               *)
(*     <<"tab", rows>>   a table of numbers (text)                           *)
(*     <<"pix", rows>>   a grey picture, the top row first                   *)
(*     <<"raw">>         something else                                      *)
(* The disk is in slot 6.  The folders "" and "sub/" exist, no other does.   *)
EXTENDS PointSteps

DiskSlot == 6
Folders == {"", "sub/"}
FSPut(fs, n, c) == [x \in DOMAIN fs \cup {n} |-> IF x = n THEN c ELSE fs[x]]
WFDisk(d) == \A n \in DOMAIN d.fs :
    d.fs[n][1] \in {"obj", "mat", "tab", "pix", "raw", "bin"}
\* a name as a user gives it: folder, stem, extension
FullName(nm) == nm.dir \o nm.stem \o nm.ext
\* the extension is added unless it is already there
ImtName(nm, comp) == LET x == IF comp THEN ".cimt" ELSE ".imt"
                     IN  IF nm.ext = x THEN FullName(nm) ELSE FullName(nm) \o x

(* text tables *)
AsciiRows(o) ==
    LET nan(q) == IF q = M THEN NAN ELSE q IN
    CASE o.k = "F" -> LET ny == NY(o) IN
            [n \in 1..(NX(o) * ny) |-> LET i == ((n - 1) \div ny) + 1
                                           j == ((n - 1) % ny) + 1
                                       IN  <<o.ax[i], o.ay[j]>> \o [c \in 1..o.nc |-> nan(o.v[c][i][j])]]
      [] o.k = "P" -> [n \in 1..PN(o) |-> <<o.x[n], nan(o.y[n])>>]
      [] o.k \in {"S", "O"} -> [n \in 1..SN(o) |-> IF HasV(o) THEN Append(o.xy[n], o.v[n]) ELSE o.xy[n]]
      [] OTHER -> <<>>
AsciiErr(o) == o.k \notin {"F", "P", "S", "O"}
Col(rows, c) == [n \in 1..Len(rows) |-> rows[n][c]]
Uniq(s) == LET S == TLCEval(Range1(s)) IN
    TLCEval([k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : QLt(y, x)}) = k - 1])
\* every row of the table at its place on the grid, the rest masked
FieldOf(rows, cx, cy, cs, ux, uy, uv) ==
    LET ax == Uniq(Col(rows, cx))
        ay == Uniq(Col(rows, cy))
        at(i, j) == {n \in 1..Len(rows) : rows[n][cx] = ax[i] /\ rows[n][cy] = ay[j]}
        val(c, i, j) == IF at(i, j) = {} THEN NAN ELSE rows[SetMax(at(i, j))][c]
        full == Mat(Len(ax), Len(ay), LAMBDA i, j : \A k \in 1..Len(cs) : val(cs[k], i, j) # NAN)
    IN  [k |-> "F", nc |-> Len(cs), ax |-> ax, ay |-> ay, ux |-> ux, uy |-> uy, uv |-> uv,
         v |-> TLCEval([k \in 1..Len(cs) |-> Mat(Len(ax), Len(ay),
                    LAMBDA i, j : IF full[i][j] THEN val(cs[k], i, j) ELSE M)])]
TableObj(rows, a) ==
    CASE a.kind = "sf" -> FieldOf(rows, a.cols[1], a.cols[2], <<a.cols[3]>>, a.ux, a.uy, a.uv)
      [] a.kind = "vf" -> FieldOf(rows, a.cols[1], a.cols[2], <<a.cols[3], a.cols[4]>>, a.ux, a.uy, a.uv)
      [] a.kind = "prof" -> PMake(Col(rows, a.cols[1]), Col(rows, a.cols[2]),
                                  [n \in 1..Len(rows) |-> FALSE], a.ux, a.uy)
      [] a.kind = "pts" -> [k |-> "S", xy |-> XY(Col(rows, a.cols[1]), Col(rows, a.cols[2])),
                            v |-> IF Len(a.cols) = 3 THEN Col(rows, a.cols[3]) ELSE <<>>,
                            ux |-> a.ux, uy |-> a.uy, uv |-> a.uv]
TableErr(rows, a) == \E k \in 1..Len(a.cols) : a.cols[k] < 1 \/ a.cols[k] > Len(rows[1])
\* the fields of the files names[lo+1], names[lo+1+incr] .. at their times
RECURSIVE TableSeq(_, _, _, _, _)
TableSeq(t, fs, a, n, hi) ==
    IF n > hi THEN t
    ELSE TableSeq(AddField(t, TableObj(fs[a.names[n]][2], a), a.ts[n], a.ut), fs, a, n + a.incr, hi)

(* pictures: the first row is the top one *)
PicField(pix, ax, ay, a) ==
    LET h == Len(pix)
        w == Len(pix[1])
    IN  [k |-> "F", nc |-> 1, ax |-> ax, ay |-> ay, ux |-> a.ux, uy |-> a.uy, uv |-> a.uv,
         v |-> <<Mat(w, h, LAMBDA i, j : pix[h + 1 - j][i])>>]
PixAxis(n) == [i \in 1..n |-> R(i - 1)]
\* axes may be given in descending order
PicUp(f) ==
    LET g == IF Len(f.ax) > 1 /\ QLt(f.ax[2], f.ax[1]) THEN [f EXCEPT !.ax = Rev(f.ax), !.v = <<Rev(f.v[1])>>] ELSE f
    IN  IF Len(f.ay) > 1 /\ QLt(f.ay[2], f.ay[1])
        THEN [g EXCEPT !.ay = Rev(g.ay), !.v = <<[i \in 1..Len(g.v[1]) |-> Rev(g.v[1][i])]>>] ELSE g
PicOf(pix, a) == PicUp(PicField(pix, IF a.ax = <<>> THEN PixAxis(Len(pix[1])) ELSE a.ax,
                                IF a.ay = <<>> THEN PixAxis(Len(pix)) ELSE a.ay, a))
PicErr(pix, a) == (a.ax # <<>> /\ Len(a.ax) # Len(pix[1])) \/ (a.ay # <<>> /\ Len(a.ay) # Len(pix))
Pix(f) == Mat(NY(f), NX(f), LAMBDA j, i : f.v[1][i][NY(f) + 1 - j])
Num5(n) == "0000" \o ToString(n)
RECURSIVE PutPics(_, _, _, _)
PutPics(fs, base, list, n) ==
    IF n > Len(list) THEN fs
    ELSE PutPics(FSPut(fs, base \o "_" \o Num5(n - 1) \o ".png", <<"pix", Pix(list[n])>>), base, list, n + 1)
RECURSIVE PicSeq(_, _, _, _, _)
PicSeq(t, fs, a, n, hi) ==
    IF n > hi THEN t
    ELSE PicSeq(AddField(t, PicOf(fs[a.names[n]][2], a), a.ts[n], a.ut), fs, a, n + a.incr, hi)

(* DaVis buffers: frames of rows; column i of a frame is at x0 + i dx *)
DavAxis(o, d, n) == LET s == [i \in 1..n |-> QAdd(o, QMul(R(i - 1), d))] IN IF d[1] < 0 THEN Rev(s) ELSE s
DavField(a, comps, mask) ==
    LET ny == Len(comps[1])
        nx == Len(comps[1][1])
        si(i) == IF a.dx[1] < 0 THEN nx + 1 - i ELSE i
        sj(j) == IF a.dy[1] < 0 THEN ny + 1 - j ELSE j
        sg(c) == IF Len(comps) = 1 THEN One
                 ELSE IF (c = 1 /\ a.dx[1] < 0) \/ (c = 2 /\ a.dy[1] < 0) THEN R(-1) ELSE One
    IN  [k |-> "F", nc |-> Len(comps), ax |-> DavAxis(a.x0, a.dx, nx), ay |-> DavAxis(a.y0, a.dy, ny),
         ux |-> a.ux, uy |-> a.uy, uv |-> a.uv,
         v |-> TLCEval([c \in 1..Len(comps) |-> Mat(nx, ny, LAMBDA i, j :
                 IF mask[sj(j)][si(i)] THEN M
                 ELSE QMul(sg(c), QAdd(QMul(a.sc, comps[c][sj(j)][si(i)]), a.off)))])]
DavMask(a, fr) == \* zero vectors are missing ones, and those flagged
    [j \in 1..Len(fr[1]) |-> [i \in 1..Len(fr[1][1]) |->
        IF Len(fr) = 1 THEN FALSE
        ELSE (fr[1][j][i] = Zero /\ fr[2][j][i] = Zero) \/ (a.flag # <<>> /\ a.flag[j][i] # 1)]]
DavOf(a, fr) == DavField(a, fr, DavMask(a, fr))
RECURSIVE DavSeq(_, _, _, _)
DavSeq(t, a, n, c) ==
    IF n > a.hi THEN t
    ELSE DavSeq(AddField(t, DavOf(a, a.fr[n]), QMul(R(c * a.incr), a.dt), a.ut), a, n + a.incr, c + 1)

DStep(ws, e, o) ==
    LET a == e.a
        disk == ws[DiskSlot]
        fs == IF disk.k = "DISK" THEN disk.fs ELSE [x \in {"keep"} |-> <<"raw">>]
        out(x) == Done(Put(ws, e.d, x), <<>>)
        write(n, c) == Done(Put(ws, DiskSlot, [disk EXCEPT !.fs = FSPut(fs, n, c)]), <<>>)
        has(n, tag) == n \in DOMAIN fs /\ fs[n][1] = tag
    IN
    CASE e.op = "disk" -> Done(Put(ws, DiskSlot, [k |-> "DISK", fs |-> [x \in {"keep"} |-> <<"raw">>]]), <<>>)
      [] e.op = "put" -> write(FullName(a.nm), a.c)
      [] e.op = "save" -> Guard(ws, a.nm.dir \notin Folders, write(ImtName(a.nm, a.comp), <<"obj", ws[e.s]>>))
      [] e.op = "load" -> LET n == FullName(a.nm) IN
          Guard(ws, ~has(n, "obj") \/ a.nm.ext \notin {".imt", ".cimt"}, out(fs[n][2]))
      [] e.op = "msave" -> Guard(ws, a.nm.dir \notin Folders, write(FullName(a.nm), <<"mat", ws[e.s]>>))
      [] e.op = "mload" -> LET n == FullName(a.nm) IN
          Phys(Guard(ws, ~has(n, "mat"), out(fs[n][2])))
      [] e.op = "mgrid" -> \* the coordinates and the mask of a field, as another programme reads them
          LET f == fs[FullName(a.nm)][2] IN
          Done(ws, <<Mat(NX(f), NY(f), LAMBDA i, j : f.ax[i]), Mat(NX(f), NY(f), LAMBDA i, j : f.ay[j]),
                     Mat(NX(f), NY(f), LAMBDA i, j : Masked(f, i, j))>>)
      [] e.op = "imts" -> \* the fields saved in sub/, in the order of the file names
          LET ok == SelectSeq(a.names, LAMBDA n : fs[n][1] = "obj" /\ fs[n][2].k = "F" /\ fs[n][2].nc = a.nc)
              grp == [ts |-> [n \in 1..Len(ok) |-> Zero], ut |-> UNone, fs |-> [n \in 1..Len(ok) |-> fs[ok[n]][2]]]
              bad == \E n \in 1..Len(ok) : fs[ok[n]][2].ax # fs[ok[1]][2].ax \/ fs[ok[n]][2].ay # fs[ok[1]][2].ay
          IN  Guard(ws, bad, write(ImtName(a.nm, TRUE), <<"obj", AddAll(TEmpty(a.nc), grp, 1)>>))
      [] e.op = "asave" -> Guard(ws, a.nm.dir \notin Folders \/ AsciiErr(ws[e.s]),
                                 write(FullName(a.nm), <<"tab", AsciiRows(ws[e.s])>>))
      [] e.op = "aload" -> LET n == FullName(a.nm) IN
          Guard(ws, ~has(n, "tab") \/ TableErr(fs[n][2], a), out(TableObj(fs[n][2], a)))
      [] e.op = "aloads" ->
          LET lo == IF a.win = <<>> THEN 0 ELSE a.win[1]
              hi == IF a.win = <<>> THEN Len(a.names) - 1 ELSE a.win[2]
          IN  Guard(ws, a.names = <<>> \/ lo < 0 \/ hi > Len(a.names) - 1,
                    out(TableSeq(TEmpty(2), fs, a, lo + 1, hi + 1)))
      [] e.op = "psave" -> Guard(ws, a.nm.dir \notin Folders, write(FullName(a.nm), <<"pix", Pix(ws[e.s])>>))
      [] e.op = "pload" -> LET n == FullName(a.nm) IN
          Guard(ws, ~has(n, "pix") \/ PicErr(fs[n][2], a), out(PicOf(fs[n][2], a)))
      [] e.op = "psaves" ->
          LET list == IF a.of = "list" THEN [n \in 1..Len(a.slots) |-> ws[a.slots[n]]] ELSE ws[e.s].fs
          IN  Done(Put(ws, DiskSlot, [disk EXCEPT !.fs = PutPics(fs, FullName(a.nm), list, 1)]), <<>>)
      [] e.op = "ploads" ->
          LET lo == IF a.win = <<>> THEN 0 ELSE a.win[1]
              hi == IF a.win = <<>> THEN Len(a.names) ELSE IF a.win[2] > Len(a.names) THEN Len(a.names) ELSE a.win[2]
          IN  Guard(ws, lo < 0 \/ \E n \in 1..Len(a.names) : PicErr(fs[a.names[n]][2], a),
                    out(PicSeq(TEmpty(1), fs, a, lo + 1, hi)))
      [] e.op = "dav" -> out(DavOf(a, a.fr))
      [] e.op = "davs" -> out(DavSeq(TEmpty(a.nc), a, a.lo + 1, 1))
=============================================================================
