------------------------------- MODULE JForms -------------------------------
(***************************************************************************)
(* C25: forms of calls.                                                     *)
(*   [e "form", f, op, in, args, out, canon]                                *)
(* out is what the form gave, canon what the canonical call gave: the one   *)
(* with the library's numbers, with all variables and arguments written     *)
(* out.  The model says which forms are refused, and which value the form   *)
(* denotes; the two outcomes must not differ.                               *)
(***************************************************************************)
EXTENDS JInt

\* forms that leave out the variable have a meaning for exactly one symbol
NeedsOneSymbol(ev) == (ev.f = "unary" /\ ev.op \in {"int1", "diff0"}) \/ (ev.f = "defint" /\ ev.op = "short")
HasAny(t) == HasTag(t, {"any"})
Refused(ev) ==
    \/ NeedsOneSymbol(ev) /\ Cardinality(SymbolsOf(ev["in"])) # 1
    \/ ev.f = "eqswap" /\ HasAny(ev["in"]) /\ HasAny(ev.args[1])
\* the term that a form denotes, <<>> if it is not a term
FormTerm(ev) ==
    CASE ev.f = "op" /\ ev.op \in ArithOps -> SpecTerm(ev.op, ev.args)
      [] ev.f = "fn" -> (CASE ev.op \in {"log", "abs"} -> SpecTerm(ev.op, ev.args)
                           [] ev.op = "sqrt" -> SpecTerm("sqrt", ev.args)
                           [] ev.op = "log2" -> <<"log", ev.args[1], R(2)>>
                           [] ev.op = "exp" -> <<"pow", <<"e">>, ev.args[1]>>
                           [] OTHER -> <<"fn", ev.op, ev.args[1]>>)
      [] ev.f = "logb" -> <<"log", ev.args[1], ev.args[2]>>
      [] ev.f = "list" -> SpecTerm(ev.op, ev.args)
      [] ev.f = "unary" /\ ev.op \in {"neg", "abs", "sqrt"} -> SpecTerm(ev.op, <<ev["in"]>>)
      [] ev.f = "unary" /\ ev.op = "log1" -> <<"log", ev["in"], <<"e">>>>
      [] ev.f = "unary" /\ ev.op = "pos2" -> <<"pow", ev["in"], R(2)>>
      [] ev.f = "symbols" -> IF Len(ev.args) = 1 THEN <<"sym", ev.args[1]>> ELSE <<"list">> \o [i \in DOMAIN ev.args |-> <<"sym", ev.args[i]>>]
      [] OTHER -> <<>>
ErrName(t) == IF IsExc(t) THEN t[2] ELSE ""
\* two outcomes that are trees: the same up to the order of terms; two antiderivatives may differ by a constant
SameOutcome(ev) ==
    IF ev.out = ev.canon THEN Ok
    ELSE IF ErrName(ev.out) # ErrName(ev.canon) THEN Bad("form-differs", "one of them raises " \o ErrName(ev.out) \o ErrName(ev.canon))
    ELSE IF IsExc(ev.out) THEN Ok                       \* the same kind of error with another message
    ELSE IF IsNone(ev.out) \/ IsNone(ev.canon) THEN Bad("form-differs", "one of them gives nothing")
    ELSE IF ev.f = "unary" /\ ev.op = "int1" THEN
         Antiderivative(ev.out, ev["in"], ev.args[1][2], "form-value", FALSE)
    ELSE IF ev.f = "defint" THEN JudgeTerm(ev.canon, ev.out, "form-value")
    ELSE IF ev.out[1] \in {"bool", "text", "list", "yes", "no"} \/ ev.canon[1] \in {"bool", "text", "list", "yes", "no"} THEN Bad("form-differs", "")
    ELSE IF EqualUpToOrder(ev.out, ev.canon) THEN Ok ELSE Bad("form-differs", "")
C25(ev) ==
    IF ev.e # "form" THEN Skip("other operation")
    ELSE IF HasInf(ev["in"]) THEN Skip("infinite")
    ELSE IF Refused(ev) THEN IF ErrName(ev.out) = "ValueError" THEN Ok ELSE Bad("form-not-refused", "")
    ELSE IF ev.f = "symbols" THEN IF ev.out = FormTerm(ev) THEN Ok ELSE Bad("symbols-form", "")
    ELSE LET r == SameOutcome(ev)  w == FormTerm(ev) IN
         IF Fails(r) \/ w = <<>> \/ IsExc(ev.out) \/ HasInf(w) \/ InvOfTrig(w) THEN r
         ELSE LET v == JudgeTerm(w, ev.out, "form-value") IN IF Fails(v) THEN v ELSE Ok
=============================================================================
