------------------------------- MODULE JSess -------------------------------
(* C12 expressions never change, C13 results do not depend on the history *)
EXTENDS Session, JInt

SessDetail(ev, w) == LET c == ev.steps[w[1]] IN "step " \o ToString(w[1]) \o " (" \o c.op \o "): " \o w[2] \o "; result " \o ev.table[c.res] \o
    (IF c.fresh # c.res THEN "; fresh process: " \o ev.table[c.fresh] ELSE "")
C1213(which, ev) ==
    IF ev.e # "sess" THEN Skip("other operation")
    ELSE IF Len(ev.steps) = 0 THEN Skip("empty session")
    ELSE LET w == Walk(which, Empty, ev.steps, 1) IN
         IF w[1] = 0 THEN Ok ELSE Bad(IF which = "C12" THEN "session-immutable" ELSE "session-functional", SessDetail(ev, w))
=============================================================================
