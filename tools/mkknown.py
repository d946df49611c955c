"""Writes known_findings.json: the findings that are recorded rather than repaired, with the probe that reproduces each of them."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
S = lambda n: ["sym", n]
R = lambda n, d=1: ["rat", n, d]
x, y, z, e = S("x"), S("y"), S("z"), ["e"]
I = lambda n: ["int", n]
F = lambda n, d: ["frac", n, d]
findings = []


def strict(prop, p, op, ins, what, clause="value-irregular"):
    findings.append({"property": prop, "job": {"m": "strict", "p": p}, "event": {"e": "strict", "op": op, "in": ins}, "clause": clause, "what": what})


NEG = "a negative rational to the power p/q with p even and q odd is given the wrong sign: "
strict("C01", ["pow", I(-2), F(4, 3)], "pow", [R(-2), R(4, 3)], NEG + "(-2)^(4/3)")
strict("C01", ["pow", I(-1), F(2, 3)], "pow", [R(-1), R(2, 3)], NEG + "(-1)^(2/3)")
EV = "(u^even)^r loses the absolute value of u: "
strict("C01", ["pow", ["pow", x, I(2)], F(3, 2)], "pow", [["pow", x, R(2)], R(3, 2)], EV + "(x^2)^(3/2) becomes x^3")
strict("C01", ["pow", ["pow", x, I(2)], F(-1, 2)], "pow", [["pow", x, R(2)], R(-1, 2)], EV + "(x^2)^(-1/2) becomes 1/x")
strict("C01", ["pow", ["pow", y, I(4)], F(3, 4)], "pow", [["pow", y, R(4)], R(3, 4)], EV + "(y^4)^(3/4) becomes y^3")
strict("C01", ["sqrt", ["div", I(4), ["pow", z, I(2)]]], "sqrt", [["prod", R(4), ["pow", z, R(-2)]]], EV + "sqrt(4/z^2) becomes 2/z")
RC = "an inverse function of the reciprocal function is simplified as if the functions were multiplicative inverses (asserted by tests/test_exprs.py): "
strict("C03", ["fn", "atan", ["fn", "cot", x]], "atan", [["fn", "cot", x]], RC + "atan(cot(x)) becomes 1/x")



def canon(op, args, ps, ins, outs, reprs, what):
    findings.append({"property": "C02", "job": {"m": "canon", "op": op, "args": args, "ps": ps, "strict": True},
                     "event": {"e": "canon", "op": op, "in": ins, "outs": outs, "same": False, "reprs": reprs, "strict": True}, "clause": "canon-order-matters", "what": what})


X1 = ["add", x, I(1)]
NUMP = "a coefficient is merged into a power of the same number, depending on the order of the factors: "
r2 = ["pow", R(2), R(1, 2)]
canon("prod", [I(2), ["sqrt", I(2)], F(1, 2)], [["prod", I(2), ["sqrt", I(2)], F(1, 2)], ["mul", ["mul", I(2), F(1, 2)], ["sqrt", I(2)]], ["mul", ["mul", I(2), ["sqrt", I(2)]], F(1, 2)]],
      [R(2), r2, R(1, 2)], [["prod", R(1, 2), ["pow", R(2), R(3, 2)]], r2], ["2^(3/2)/2", "sqrt(2)"], NUMP + "2 * sqrt(2) * 1/2 is 2^(3/2)/2 or sqrt(2)")
DIST = "a factor -1 is distributed over a sum, depending on the order of the factors: "
sx1 = ["sum", x, R(1)]
neg = ["sum", ["prod", R(-1), x], R(-1)]
canon("prod", [I(-1), X1, ["neg", x]], [["prod", I(-1), X1, ["neg", x]], ["mul", ["mul", I(-1), X1], ["neg", x]]],
      [R(-1), sx1, ["prod", R(-1), x]], [["prod", x, sx1], ["prod", R(-1), x, neg]], ["x*(x + 1)", "-x*(-x - 1)"], DIST + "(-1) * (x + 1) * (-x) is x*(x + 1) or -x*(-x - 1)")

tx = ["fn", "tan", x]
findings.append({"property": "C15", "job": {"m": "match", "p": tx, "q": ["mul", I(3), ["fn", "tan", ["any", "a"]]], "utf": True, "uts": False, "must": False, "strict": True},
                 "event": {"e": "match", "in": [tx, ["prod", R(3), ["fn", "tan", ["any", "a"]]]], "utf": True, "uts": False, "must": False, "strict": True,
                           "matches": [["a", x]], "factor": R(3)}, "clause": "match",
                 "what": "matching tan(x) against 3*tan(any) up to a factor reports the factor 3 instead of 1/3 (asserted by tests/test_regex.py)"})

findings.append({"property": "C09", "job": {"m": "int", "p": ["fn", "sec", x], "v": "x", "bf": False, "strict": True},
                 "event": {"e": "int", "in": ["fn", "sec", x], "var": "x", "bf": False, "must": False, "strict": True, "warned": False}, "clause": "int-domain",
                 "what": "the integral of sec(x) is log(tan(x) + sec(x)) without an absolute value, which has no value where sec(x) is negative (asserted by tests/test_khan_academy_integrals.py)"})

# an antiderivative that has no value at a bound where the integral exists
PIF = lambda n, d: ["mul", ["pi"], F(n, d)]
PIO = lambda n, d: ["prod", R(n, d), ["pi"]]
CSC2 = ["pow", ["fn", "csc", x], R(2)]
for a, b in (((1, 3), (1, 2)), ((1, 6), (1, 2)), ((1, 2), (3, 4)), ((-1, 2), (-1, 6))):
    findings.append({"property": "C10", "job": {"m": "defint", "p": ["add", ["pow", ["fn", "csc", x], I(2)], x], "v": "x", "a": PIF(*a), "b": PIF(*b), "short": False},
                     "event": {"e": "defint", "in": ["sum", CSC2, x], "var": "x", "a": PIO(*a), "b": PIO(*b)}, "clause": "defint-domain",
                     "what": "the integral of csc(x)^2 + x from %d*pi/%d to %d*pi/%d is nan: the antiderivative tan(x) - csc(x)*sec(x) of csc(x)^2 has no value at pi/2" % (a + b)})

FIXED = [
    ("C03", "b8e399e", "asin(0), acos(0), atan(0) were not evaluated correctly"),
    ("C06", "46ada6e", "evalf of csc, sec and cot called functions that do not exist"),
    ("C06", "56717e7", "evalf with a substitution of expressions with symbols crashed"),
    ("C07", "fa8d56f", "the base of a logarithm was ignored by diff, evalf, expand, expand_logs and repr"),
    ("C07", "a6fb58b", "Abs.diff had the wrong sign"),
    ("C18", "87363e2", "roots of perfect powers were found with floating point arithmetic"),
    ("C12", "9981358", "Infinity and NaN had no caches of their own"),
    ("C14", "5430043", "equality with E was not symmetric"),
    ("C09", "327e2c0", "InverseTrigUSub ignored that the root of the square is an absolute value"),
    ("C09", "5103d51", "integration by parts twice divided by zero on a tautology"),
    ("C11", "f5c524e", "a node that would close a cycle in the search tree was not marked as a failure"),
    ("C24", "d9cd8c6", "PartialFractions was applied to denominators with factors that are not linear"),
    ("C24", "e6f0684", "CompleteTheSquare was applied to perfect squares"),
    ("C22", "b9d71d1", "product_to_sum_unit dropped the factors that are not powers"),
    ("C15", "8c0349e", "eq_with_var confused the variable of the second expression with a free symbol of the first"),
    ("C08", "ce184ed", "simplify crashed on sums with even powers of both sec and tan"),
    ("C12", "7a09781", "log(b^log(u), b) overwrote the existing log(u)"),
    ("C07", "4955092", "the derivative of the constants asin(1), asin(-1), acos(1), acos(-1) was nan"),
    ("C04", "d0cdfa9", "expand left a power of a sum when a minus sign came out of the expanded base"),
    ("C08", "7695e6b", "factor crashed on sums with Float coefficients"),
    ("C09", "700e3dd", "integration by parts twice failed with several or symbolic constants; tan(x)*x^y integrated to 0"),
    ("C09", "7ef44c6", "substitutions u = sin(x), u = cos(x) lost the sign of the root"),
    ("C11", "5211c57", "safe transforms were applied to the filler nodes of an integration by parts"),
    ("C23", "fd73960", "powers of linear expressions in the denominator were expanded and then not integrated"),
    ("C11", "2e8f316", "a node that InverseTrigUSub had simplified got a second child and failed with either one"),
    ("C19", "b6b52d3", "x^(1/y) was printed as x^1/y"),
    ("C19", "bb59a87", "functions of products of sums were printed without their brackets: sin(x + 1)*(y + 2)"),
    ("C20", "a17a338", "printing products of a negative number and a power of -1 raised exceptions"),
    ("C16", "9971a78", "replacing built sin(2*pi - x), sin(-x): the sign was left in the argument"),
    ("C15", "f25ad5f", "matching up to a sum looked at the names of the terms instead of their matches"),
    ("C25", "fe05de9", "diff() required the variable it says may be omitted, and returned its error"),
    ("C25", "1aa4a41", "simpy.latex was replaced by the submodule of that name once something had been printed"),
    ("C24", "c04cd86", "u-substitution for functions of 2x and (2x)^2 left the old variable behind; sin(2*x)*e^(4*x^2) integrated to -cos(2*x)*e^(4*x^2)/2"),
    ("C08", "acd19c1", "simplify(sin(x)^2*cos(y)^2 + cos(x)^2*cos(y)^2) dropped cosines: terms holding squares of both a sine and a cosine were kept in the sum and replaced as well"),
    ("C18", "361426f", "roots of rationals beyond the range of floats raised OverflowError or ZeroDivisionError: sqrt(Rat(10**400)), Rat(1, 10**400)**Rat(-1, 2)"),
    ("C19", "74cfb78", "negative floats as bases were printed without brackets, in text and LaTeX: Float(-2.5)**y as -2.5^y"),
    ("C09", "36dfe97", "integrate raised NotImplementedError for products with the variable in the base and the exponent of a power: e^x*x^x"),
    ("C10", "88e6da0", "definite integrals were nan where only the unsimplified antiderivative has no value at a bound: csc(x)^2 from pi/3 to pi/2"),
    ("C03", "ef7ea32", "abs() of an expression with a Float raised AttributeError"),
]
json.dump({"findings": findings, "fixed": ["fixed: property=%s %s %s" % f for f in FIXED]}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(findings), "findings")
