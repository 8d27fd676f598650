------------------------------- MODULE Trace -------------------------------
(* Checks histories recorded from the real code against IMT!Step.  The file  *)
(* holds many histories; each starts with a "reset" event.  The checker is   *)
(* total: a history that leaves the specification is reported, with the      *)
(* clause that fails, and the next history is then checked.                  *)
EXTENDS IMT, Json, IOUtils

NSlots == 6
T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, ws, seen, live, nbad
vars == <<l, ws, seen, live, nbad>>

Blank == [i \in 1..NSlots |-> Empty]
Init == l = 1 /\ ws = Blank /\ seen = Blank /\ live = FALSE /\ nbad = 0

RECURSIVE Upd(_, _)
Upd(s, ch) == IF ch = <<>> THEN s ELSE Upd([s EXCEPT ![ch[1][1]] = ch[1][2]], Tail(ch))

Same(m, x, ph) == m = x \/ (ph /\ m.k = x.k /\ PhysObj(m, x))

RetSame(m, x, ph) == m = x \/ (ph /\ Len(x) = 2 /\ Len(m) = 2 /\ PhysEq(m[1], m[2], x[1], x[2]))

\* "" when the event e is a legal step of ws to what was observed
Verdict(e, r, o) ==
    IF e.err /\ r.ok THEN "raised"
    ELSE IF ~e.err /\ ~r.ok THEN "accepted"
    ELSE IF ~e.err /\ ~RetSame(r.ret, e.ret, r.phys) THEN "returned"
    ELSE IF ~e.err /\ r.bad THEN "relation"
    ELSE IF e.sh # <<>> THEN "shared"
    ELSE IF ~e.obs THEN ""
    ELSE LET dd == IF e.ip THEN e.s ELSE e.d
             wrong == {i \in 1..NSlots : ~Same(r.ws[i], o[i], r.phys)}
         IN  IF wrong = {} THEN ""
             ELSE IF ~e.err /\ dd \in wrong THEN "result" ELSE "frame"

Show(i, e, c, r, o) ==
    PrintT(<<"VERDICT", e.id, i, e.m, e.op, c>>)
    /\ IF IOEnv.SHOW = "1"
       THEN PrintT("JSON " \o ToJson([want |-> [ok |-> r.ok, ret |-> r.ret,
                              ws |-> [n \in {n \in 1..NSlots : ~Same(r.ws[n], o[n], FALSE)} |-> r.ws[n]]],
                    event |-> [op |-> e.op, a |-> e.a, err |-> e.err, ret |-> e.ret, s |-> e.s, t |-> e.t, d |-> e.d, ip |-> e.ip],
                    got |-> [n \in {n \in 1..NSlots : ~Same(r.ws[n], o[n], FALSE)} |-> o[n]]]))
       ELSE TRUE

Next ==
    /\ l <= Len(T)
    /\ l' = l + 1
    /\ LET e == T[l] IN
       IF e.op = "reset"
       THEN ws' = Blank /\ seen' = Blank /\ live' = TRUE /\ nbad' = nbad
       ELSE IF ~live
       THEN UNCHANGED <<ws, seen, live, nbad>>
       ELSE LET o == TLCEval(Upd(seen, e.ch))
                r == TLCEval(Step(ws, e, o))
                c == Verdict(e, r, o)
            IN  IF c = ""
                THEN /\ seen' = o
                     /\ ws' = TLCEval(IF e.obs THEN o ELSE r.ws)
                     /\ live' = TRUE /\ nbad' = nbad
                ELSE /\ Show(l, e, c, r, o)
                     /\ live' = FALSE /\ nbad' = nbad + 1
                     /\ UNCHANGED <<ws, seen>>

Spec == Init /\ [][Next]_vars
Finished == l = Len(T) + 1 => PrintT(<<"FINISHED", Len(T), nbad>>)
=============================================================================
