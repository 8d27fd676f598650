-------------------------------- MODULE IMT --------------------------------
(* One transition relation for the whole library: Step(ws, e, o) is what the *)
(* API call e must do to the workspace ws.  o is the workspace observed      *)
(* after the call; only relational outcomes look at it.                      *)
EXTENDS ZoneSteps

WFObj(x) == CASE x.k = "F" -> WFField(x)
              [] x.k = "T" -> WFTemp(x)
              [] x.k = "P" -> WFProf(x)
              [] x.k \in {"S", "O"} -> WFPts(x)
              [] x.k = "TP" -> WFTPts(x)
              [] x.k = "CP" -> WFCrit(x)
              [] x.k = "DISK" -> WFDisk(x)
              [] OTHER -> TRUE

(* Calls that make sense on every object.  "flip" writes through the arrays   *)
(* of one object: no other object may notice, or two of them share storage.  *)
(* "bad" calls have arguments that make no sense (a window of one bound, a   *)
(* negative factor, an unknown axis, lists of different lengths...): they    *)
(* are refused, and change nothing.                                          *)
NegSeq(s) == [i \in 1..Len(s) |-> QNeg(s[i])]
FlipF(f) == [f EXCEPT !.v = [c \in 1..Len(f.v) |-> [i \in 1..Len(f.v[c]) |-> NegSeq(f.v[c][i])]]]
FlipS(p) == [p EXCEPT !.xy = [i \in 1..Len(p.xy) |-> NegSeq(p.xy[i])], !.v = NegSeq(p.v)]
Flip(x) == CASE x.k = "F" -> FlipF(x)
             [] x.k = "T" -> [x EXCEPT !.fs = [n \in 1..Len(x.fs) |-> FlipF(x.fs[n])]]
             [] x.k = "P" -> [x EXCEPT !.y = NegSeq(x.y)]
             [] x.k \in {"S", "O"} -> FlipS(x)
             [] x.k = "TP" -> [x EXCEPT !.ps = [n \in 1..Len(x.ps) |-> FlipS(x.ps[n])]]
             [] x.k = "CP" -> CMap(x, FlipS)
XStep(ws, e, o) == CASE e.op = "flip" -> Done(Put(ws, e.s, Flip(ws[e.s])), <<>>)
                     [] e.op = "bad" -> Fail(ws)

Step(ws, e, o) ==
    CASE e.m = "f" -> FStep(ws, e, o)
      [] e.m = "t" -> TStep(ws, e, o)
      [] e.m = "p" -> PStep(ws, e, o)
      [] e.m = "s" -> SStep(ws, e, o)
      [] e.m = "tp" -> TPStep(ws, e, o)
      [] e.m = "d" -> DStep(ws, e, o)
      [] e.m = "g" -> GStep(ws, e, o)
      [] e.m = "cp" -> CPStep(ws, e, o)
      [] e.m = "bl" -> LStep(ws, e, o)
      [] e.m = "z" -> ZStep(ws, e, o)
      [] e.m = "x" -> XStep(ws, e, o)
=============================================================================
