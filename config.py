"""Per property: the number of pseudo-random jobs in each tier, further models, limits, and the texts of the manifest."""
A_REAL = ("Values are compared at 14 sample assignments (8 with all symbols positive) with rigorous interval arithmetic; java/src/Ball.java (the interval "
          "arithmetic behind the TLA+ module Ball) and TLC are trusted.")
TECH = "TLA+ model with TLC: programs generated from the spec are run on the real code, TLC validates the recorded traces"
HOOKS = {"guard": "SIMPY_VERIF", "enable": "no hooks are needed so far; the checks run /repo/src as it is", "source_commits": []}


def c(quick, thorough, note, **kw):
    d = dict(quick=quick, thorough=thorough, note=note, technique=TECH, assumptions=[A_REAL])
    d.update(kw)
    return d

LIVE = "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n"
SAFE = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
SEARCH = [{"module": "Search", "consts": {"NG": 3, "FROM": 0}, "quick": {"TO": 150}, "thorough": {"TO": 1330}, "body": LIVE}]
SESSION = [{"module": "MCSession", "consts": {"OPS": 1}, "quick": {"MAXCALLS": 4, "VALS": 2}, "thorough": {"MAXCALLS": 4, "VALS": 3}, "body": SAFE}]
MERGE = [{"module": "MCMerge", "consts": {"KIND": k}, "quick": {"SIZE": 3}, "thorough": {"SIZE": 4}, "body": LIVE} for k in ("sum", "prod")]


CHECKS = {
    "C01": c(6000, 60000, "All pairs of 87 atoms under + - * / ** exhaustively, plus random programs; every constructor call is judged on its own. "
             "Sound up to the interval arithmetic: an alarm is a real difference in value. Not exhaustive over programs or assignments.",
             must_terminate=True),
    "C03": c(4000, 40000, "All special angles k*pi/12 with |k| <= 40, all shifts by multiples of pi/2, all compositions of two functions on 10 arguments, logs in 7 bases, multiples of pi up to 10^30 and far arguments exhaustively, "
             "plus random arguments. asin(sin u) etc. are judged on the principal branch only.", must_terminate=True),
    "C04": c(4000, 60000, "All products of powers of five small sums with seven cofactors, high powers and products of sums of up to 13 terms, plus random expressions. For polynomials in symbols and atoms such as sin(x) the result is "
             "compared exactly with the polynomial computed in TLA+ (Poly.tla), otherwise by value.", must_terminate=True),
    "C05": c(4000, 60000, "All expression classes x outer functions x 9 substitutions, all permutations of six symbols, plus random expressions and substitutions."),
    "C06": c(4000, 60000, "All expression classes x outer functions x 7 assignments, pairs of classes, rationals of 400 digits, functions at ten arguments from 10^3 to 2^60, plus random expressions and assignments. Tolerance 1e-9 relative plus 1000 times the rounding of the enclosure."),
    "C07": c(4000, 60000, "All pairs of 46 expression classes under + - * / and all outer functions of them, both variables, plus random expressions; compared with forward-mode differentiation in TLA+."),
    "C08": c(4000, 60000, "All sums, differences, products, quotients of 35 trigonometric terms, all logarithms of 16 arguments in 5 bases, one-fraction and factor over pairs of 46 classes, constants and roots among the denominators, sums of two products of two squares of trigonometric functions, products split into numerator and denominator and constant and other factors, plus random expressions (a third of the enumeration in the quick tier).", must_terminate=True, qstep=3),
    "C22": c(3000, 40000, "All products of two powers (up to 4, some up to 9) of sines and cosines over 7 arguments, triples, coefficients, products of four to six functions, plus random products and sums.", must_terminate=True),
    "C02": c(3000, 60000, "All triples of 28 monomials as sums and products in all 6 orders and both groupings (half of them in the quick tier), pairs with a third operand of another kind, plus random multisets of up to 6 operands (a twelfth of them 8 to 20) in 6 random orders and groupings. For Laurent monomials the result is compared with the one normal form computed in Poly.tla.", qstep=2, models=MERGE),
    "C14": c(4000, 60000, "All pairs of 28 numbers of all kinds under ==, <, <=, >, >=, all pairs of 66 expressions under ==, 26 symbol names against each other in 6 contexts, plus random expressions and one- and two-step mutations of them; exact rational comparison in TLA+."),
    "C15": c(4000, 60000, "All instances of seven library patterns with 10 arguments, 8 factors, 6 rests; patterns with several placeholders (of which some repeat), patterns against patterns and 46 classes; random patterns made from random expressions. A reported match must give back the expression by value; success is required for the instances."),
    "C16": c(5000, 60000, "Ten queries over 26 names of symbols, over all pairs of 46 expression classes and outer functions, plus random expressions; compared with their definitions on trees in TLA+."),
    "C17": c(2500, 40000, "All quadratics over 6 coefficients, products of powers of linear factors, other symbols and irrational constants among the coefficients, 540 non-polynomials, polynomials of degree 7 to 40, all 2x2 matrices over 7 entries, plus random polynomials of degree up to 6; exact coefficients computed in Poly.tla."),
    "C18": c(3000, 60000, "All pairs of 23 rationals of up to 50 digits under 10 operations, roots, 9600 perfect powers with fractional exponents, ten rationals of 360 to 720 digits under 13 roots, floats and infinities (also in powers), plain Python numbers on either side, plus random ones; exact arithmetic on decimal strings (BigNum.tla)."),
    "C21": c(500, 5000, "All vectors for i <= 7, n <= 8 compared as sets, 10976 coefficients of up to 4 small terms and random ones with sums up to 100, exact; each asked for again after the caller changed the first answer."),
    "C09": c(800, 20000, "All table integrands of 12 linear arguments times 10 factors, trig powers, quotients of polynomials, substitutions, pairs of classes and large numbers and high powers (about 3600, every 8th in the quick tier), both searches, plus random integrands, most of them derivatives of random expressions. Forward-mode differentiation in TLA+ of the returned antiderivative against the integrand, and its domain. Integrands that need more than the CPU limit are not judged.", qstep=8, cpu=5, qcpu=1),
    "C10": c(800, 20000, "The integrands of C09 with 20 pairs of bounds, powers of trigonometric functions between special angles (numbers, pi, e, symbols, floats, swapped, empty) and random ones; compared with validated quadrature (160 cells with a rigorous enclosure of the derivative). Singular or undefined integrands on the interval are not judged.", qstep=10, cpu=5, qcpu=1),
    "C11": c(1500, 30000, "The search trees of the integrands of C09 in both orders: status flags, staleness, distances from the root and unfinished children of every node recomputed from the types and parents, solutions of all nodes differentiated, AND nodes summed; histories of Node operations against a transition model; searches over all AND/OR graphs of three goals and random ones of up to 7 against a fixpoint of solvability.", qstep=8, cpu=5, qcpu=1, models=SEARCH),
    "C24": c(1500, 30000, "Every rule (safe and heuristic, several instances) applied to all integrands of C09 and random ones, independent of the search: with symbols for the antiderivatives of the sub-integrals, the total derivative of what backward makes has to be the integrand.", qstep=2, cpu=5, qcpu=2),
    "C12": c(60, 10000, "Sessions: every operation of 96 on shared expressions followed by another one, all ordered pairs of operations (every 8th in the quick tier), plus random sessions of up to 14 calls; after each call the structure and printed form of all objects and containers are compared by the transition system in Session.tla.", qstep=8, cpu=20, qcpu=2, models=SESSION),
    "C13": c(60, 10000, "The same sessions: each call has to answer as an earlier call on equal arguments did and as a fresh process answers for arguments built from their structure.", qstep=8, cpu=20, qcpu=2, models=SESSION),
    "C19": c(3000, 40000, "99 shapes in 22 contexts, in pairs of contexts and in pairs under 5 operators, products of three of 23 kinds of factors, plus random compositions; the printed form is read by a grammar in TLA+ and the reading compared by value (a third of the enumeration in the quick tier).", qstep=3),
    "C20": c(3000, 40000, "99 shapes in 22 contexts, in pairs of contexts and in pairs under 5 operators, products of three of 23 kinds of factors, plus random compositions; the LaTeX form is read by a grammar in TLA+ and the reading compared by value. Floats in exponent notation are left out (a third of the enumeration in the quick tier).", qstep=3),
    "C25": c(2000, 40000, "Operators, functions, log bases, lists, substitutions and bounds with 14 plain Python numbers over 47 expression classes; unary forms of all pairs of classes; eq with its arguments swapped; integrate and diff with and without a variable; each outcome is compared with that of the canonical call and with the value the form denotes (the small families and every 12th of the rest in the quick tier).", qstep=12, cpu=10, qcpu=3),
    "C23": c(800, 20000, "All members of sixteen families over 6 coefficients, 7 constants, 4 variable names, and linear functions whose coefficients are other symbols, constants or larger numbers, quadratics under fractions and roots, substitutions of powers and exponentials, products of derivatives (11000; every second in the quick tier), plus random sums of up to four members; the antiderivative is also checked.", qstep=2, cpu=20),
}
