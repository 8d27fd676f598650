------------------------------ MODULE Outcome ------------------------------
(* A workspace is a sequence of slots, each holding an object a user of the  *)
(* library has in hand (or nothing).  A step is one API call; its outcome    *)
(* says whether it succeeds, the workspace afterwards, and what it returns.  *)
(*   ok    the call returns (FALSE: it must raise, and change nothing)       *)
(*   bad   the observed result violates the relation the call must satisfy   *)
(*   phys  the result is compared as a physical quantity: the decimal prefix *)
(*         of a product of units is free                                     *)
EXTENDS Fields

Empty == [k |-> "E"]
Done(ws, ret) == [ok |-> TRUE, ws |-> ws, ret |-> ret, bad |-> FALSE, phys |-> FALSE]
Phys(r) == [r EXCEPT !.phys = TRUE]
Fail(ws) == [ok |-> FALSE, ws |-> ws, ret |-> <<>>, bad |-> FALSE, phys |-> FALSE]
\* success with a result only constrained by a relation, already evaluated
Rel(ws, good, ret) == [ok |-> TRUE, ws |-> ws, ret |-> ret, bad |-> ~good, phys |-> FALSE]
Dst(e) == IF e.ip THEN e.s ELSE e.d
Put(ws, d, obj) == [ws EXCEPT ![d] = obj]
Guard(ws, err, r) == IF err THEN Fail(ws) ELSE r

\* the same object up to the choice of decimal prefixes
PhysField(f, g) ==
    /\ g.k = "F" /\ f.nc = g.nc /\ Len(f.ax) = Len(g.ax) /\ Len(f.ay) = Len(g.ay)
    /\ \A i \in 1..Len(f.ax) : PhysEq(f.ax[i], f.ux, g.ax[i], g.ux)
    /\ \A j \in 1..Len(f.ay) : PhysEq(f.ay[j], f.uy, g.ay[j], g.uy)
    /\ UCompat(f.ux, g.ux) /\ UCompat(f.uy, g.uy) /\ UCompat(f.uv, g.uv)
    /\ \A c \in 1..f.nc : \A i \in 1..Len(f.ax) : \A j \in 1..Len(f.ay) :
         PhysEq(f.v[c][i][j], f.uv, g.v[c][i][j], g.uv)
PhysProf(f, g) ==
    /\ g.k = "P" /\ Len(f.x) = Len(g.x)
    /\ UCompat(f.ux, g.ux) /\ UCompat(f.uy, g.uy)
    /\ \A i \in 1..Len(f.x) : /\ PhysEq(f.x[i], f.ux, g.x[i], g.ux)
                              /\ PhysEq(f.y[i], f.uy, g.y[i], g.uy)
PhysTemp(f, g) ==
    /\ g.k = "T" /\ Len(f.fs) = Len(g.fs) /\ Len(f.ts) = Len(g.ts) /\ UCompat(f.ut, g.ut)
    /\ \A n \in 1..Len(f.ts) : PhysEq(f.ts[n], f.ut, g.ts[n], g.ut)
    /\ \A n \in 1..Len(f.fs) : PhysField(f.fs[n], g.fs[n])
    /\ f.nc = g.nc /\ Len(f.ax) = Len(g.ax) /\ Len(f.ay) = Len(g.ay)
    /\ UCompat(f.ux, g.ux) /\ UCompat(f.uy, g.uy)
    /\ \A i \in 1..Len(f.ax) : PhysEq(f.ax[i], f.ux, g.ax[i], g.ux)
    /\ \A j \in 1..Len(f.ay) : PhysEq(f.ay[j], f.uy, g.ay[j], g.uy)
PhysPts(f, g) ==
    /\ g.k = f.k /\ Len(f.xy) = Len(g.xy) /\ Len(f.v) = Len(g.v)
    /\ UCompat(f.ux, g.ux) /\ UCompat(f.uy, g.uy) /\ UCompat(f.uv, g.uv)
    /\ \A i \in 1..Len(f.xy) : /\ PhysEq(f.xy[i][1], f.ux, g.xy[i][1], g.ux)
                               /\ PhysEq(f.xy[i][2], f.uy, g.xy[i][2], g.uy)
    /\ \A i \in 1..Len(f.v) : PhysEq(f.v[i], f.uv, g.v[i], g.uv)
    /\ f.k = "O" => f.or = g.or
PhysTPts(f, g) ==
    /\ g.k = "TP" /\ Len(f.ps) = Len(g.ps) /\ Len(f.ts) = Len(g.ts) /\ UCompat(f.ut, g.ut)
    /\ UCompat(f.ux, g.ux) /\ UCompat(f.uy, g.uy)
    /\ \A n \in 1..Len(f.ts) : PhysEq(f.ts[n], f.ut, g.ts[n], g.ut)
    /\ \A n \in 1..Len(f.ps) : PhysPts(f.ps[n], g.ps[n])
PhysCrit(f, g) ==
    /\ g.k = "CP" /\ Len(f.ts) = Len(g.ts) /\ Len(f.traj) = Len(g.traj)
    /\ UCompat(f.ut, g.ut) /\ UCompat(f.ux, g.ux) /\ UCompat(f.uy, g.uy)
    /\ \A n \in 1..Len(f.ts) : PhysEq(f.ts[n], f.ut, g.ts[n], g.ut)
    /\ \A c \in 1..5 : Len(f.kinds[c]) = Len(g.kinds[c]) /\ \A n \in 1..Len(f.ts) : PhysPts(f.kinds[c][n], g.kinds[c][n])
    /\ \A c \in 1..Len(f.traj) : Len(f.traj[c]) = Len(g.traj[c])
                                 /\ \A n \in 1..Len(f.traj[c]) : PhysPts(f.traj[c][n], g.traj[c][n])
PhysObj(f, g) == CASE f.k = "F" -> PhysField(f, g)
                   [] f.k = "P" -> PhysProf(f, g)
                   [] f.k = "T" -> PhysTemp(f, g)
                   [] f.k \in {"S", "O"} -> PhysPts(f, g)
                   [] f.k = "TP" -> PhysTPts(f, g)
                   [] f.k = "CP" -> PhysCrit(f, g)
                   [] OTHER -> f = g
=============================================================================
