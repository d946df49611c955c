"""Writes properties.jsonl (kept as Python so that the long texts stay readable)."""
import json, os
E = "src/simpy/expr.py"
S = "src/simpy/simplify/simplify.py"
R = "src/simpy/regex.py"
T = "src/simpy/transforms.py"
I = "src/simpy/integration.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Arithmetic on expressions preserves the value",
     "For all expressions a and b, the expressions built by a + b, a - b, a * b, a / b, a ** b, -a, sqrt(a) and by sums and "
     "products of lists (with plain Python numbers accepted on either side) denote, at every real assignment of the symbols "
     "where the operands are defined and the bases of non-integer powers are positive, exactly the real number that the operation "
     "denotes on the values of the operands. The operations raise no exception there and never turn exact operands into floats.",
     ["inputs", "programs"],
     "every finite program of arithmetic operations over symbols, integers, fractions, floats, pi, e and function applications; every assignment",
     "Automatic simplification happens in every constructor by many interacting rules (flattening, like terms, merging of powers, numeric powers); "
     "tests compare some dozens of constructed expressions with expected ones.",
     [E], [("constructors of sums, products and powers", E + ": Sum.__new__, Prod.__new__, Power.__new__"),
           ("merging of like terms and like powers", E + ": _combine_like_terms_sum, _combine_like_terms"),
           ("numeric powers", E + ": _accumulate_power, _multiply_exponents"), ("operators", E + ": Expr, Rat")],
     observe=["the structure of the returned expression"])

prop("C02", "Sums and products have one canonical form, whatever the order",
     "A sum or product (also of sums of monomials) built from the same operands in any order and any grouping is the same expression: "
     "equal, with the same printed form. In it nested sums and products are flattened, like terms and powers of the same base are merged, "
     "numbers are collapsed to at most one coefficient, zero terms and unit factors are gone, and exactly the mathematically expected coefficients and exponents remain.",
     ["inputs", "programs"],
     "every multiset of operands, every permutation and every way to parenthesise its sum or product",
     "The number of orders and groupings is exponential; the tests check a few pairs such as x + y == y + x.",
     [E], [("flatten", E + ": Associative._flatten_terms"), ("sort", E + ": Associative._sort_terms"),
           ("like terms", E + ": _combine_like_terms_sum, _combine_like_terms")],
     observe=["structure, equality and printed form of the result"])

prop("C03", "Functions simplify on construction only by true identities",
     "Constructing sin, cos, tan, sec, csc, cot, asin, acos, atan, log (any base) or an absolute value of any expression gives an expression with exactly "
     "the value of that function of the argument, wherever it is defined: special angles, parity, periods, inverse compositions, cancellation of "
     "log and power, and absolute values of positive quantities never change the value. Special angles give the exact algebraic number.",
     ["inputs"], "every argument expression, in particular every rational multiple of pi, sums with multiples of pi, negated arguments and nested inverse functions",
     "The special-value tables, periods and composition tables have hundreds of entries and the tests look at a few angles.",
     [E], [("special values, periods and compositions", E + ": TrigFunction.__new__, _special_values, _double_simplification_dict"),
           ("parity", E + ": sin.__new__, cos.__new__, tan.__new__"), ("log", E + ": log.__new__"), ("abs", E + ": Abs.__new__, _is_strictly_positive")],
     observe=["the structure of the returned expression"])

prop("C04", "expand() preserves the value and distributes fully",
     "expand() returns an expression of the same value at every assignment where the original is defined, in which no product of a sum with anything and no "
     "positive integer power of a sum remains; for polynomials it is exactly the normal form (every monomial once, with the exact coefficient). "
     "It is available exactly on the expressions that announce themselves as expandable, and expanding is not needed again on the result of expanding a polynomial.",
     ["inputs"], "every expression, in particular every product of sums and every integer power of a sum with any number of terms",
     "Multinomial coefficients and distribution are quantified over all shapes; tests expand a handful of binomials.",
     [E, "src/simpy/combinatorics.py"], [("expand", E + ": Prod._expand, Power._expand, Sum._expand, log._expand, SingleFunc._expand"),
                                        ("what is expandable", E + ": expandable"), ("multinomial theorem", "src/simpy/combinatorics.py")],
     observe=["the returned expression"])

prop("C05", "Substitution is simultaneous and agrees with evaluation",
     "Substituting expressions for symbols gives an expression whose value at any assignment is the value of the original with each substituted symbol having the value of its replacement, "
     "for all symbols at the same time (so swapping two symbols works) and leaving the others alone. A substitution for symbols that do not occur, or of symbols by themselves, changes nothing; "
     "replaced symbols that occur in no replacement do not occur in the result.",
     ["inputs"], "every expression, every map from symbols to expressions or numbers, including maps whose replacements mention the replaced symbols",
     "Tests substitute a few numbers; capture, order and re-substitution errors need expressions where replacements mention replaced symbols.",
     [E], [("subs of each class", E + ": Sum.subs, Prod.subs, Power.subs, SingleFunc.subs, log.subs, Symbol.subs, Num.subs")],
     observe=["the returned expression"])

prop("C06", "evalf() is the numeric value of the expression",
     "evalf() of an expression, with numbers given for all its symbols, is a number that agrees with the exact real value up to floating-point rounding; "
     "with only some symbols given it is an expression in the others with the right values.",
     ["inputs"], "every closed expression, every expression with every (also partial) assignment of numbers to its symbols",
     "Every class has its own evaluation rule and table of float functions; tests evaluate about ten expressions.",
     [E], [("evaluation", E + ": _evalf of Num, Symbol, Associative, Power, log, TrigFunction, Abs"), ("float functions", E + ": _func of the function classes")],
     observe=["the returned number or expression"])

prop("C07", "diff() is the derivative",
     "The derivative returned for an expression with respect to a symbol takes, at every assignment where the expression is differentiable and the result defined, "
     "exactly the value of the partial derivative, for every class of expression, any nesting and repeated differentiation; it is 0 when the symbol does not occur.",
     ["inputs"], "every expression (other than u(x)^v(x), which is refused), every symbol, repeated differentiation",
     "Chain, product and quotient rules compose without bound; the tests check some elementary derivatives.",
     [E], [("derivative rules", E + ": diff of Sum, Prod, Power, log, Abs and each function class")],
     observe=["the returned expression"])

prop("C08", "Simplification and rewriting preserve the value",
     "simplify(), trigonometric and Pythagorean simplification, expanding logarithms, writing a sum over one denominator, reciprocal rewriting, factoring a sum and splitting a product into numerator and denominator or into its constant and the rest return expressions "
     "equal in value (multiplied back for the splittings) to the argument at every assignment where both are defined (positive arguments of logarithms when these are split). They terminate without exceptions and "
     "simplify() never returns something with more symbols unless a trigonometric identity applied.",
     ["inputs"], "every expression; every combination of terms that makes one of the rewriting rules apply, also inside larger expressions and with extra factors and terms",
     "Rules fire on patterns with arbitrary factors, powers and left-over terms; the tests contain some positive examples for each.",
     [S, E, R], [("simplify and its rules", S), ("factor", E + ": Sum.factor"), ("splitting", E + ": Prod.numerator_denominator, remove_const_factor"), ("pattern matching", R + ": eq, kinder_replace")],
     observe=["the returned expression"])

prop("C09", "Indefinite integrals differentiate back to the integrand",
     "Whenever integrate returns an antiderivative, its derivative with respect to the variable of integration equals the integrand at every real point where both are defined "
     "(and the bases of non-integer powers are positive); the antiderivative has a value where the integrand has one, apart from logarithms that stand for log|u|; "
     "it contains no symbols other than those of the integrand and the variable, and other symbols are treated as constants. Otherwise it returns None and warns; it raises no exception for an expression with real values, "
     "and this holds for both search strategies.",
     ["inputs", "configurations"], "every integrand in elementary functions, any variable, additional symbols, breadth-first and depth-first search",
     "The answer depends on which of some 25 transforms and table entries the search composes; the tests fix some 80 integrands.",
     [I, T, "src/simpy/integral_table.py"], [("search", I + ": Integration.integrate"), ("rewrite rules with forward and backward steps", T),
                                            ("table", "src/simpy/integral_table.py: check_integral_table")],
     state=[("integration tree", "AND/OR tree of sub-integrals with the transform that created each", T + ": Node")],
     observe=["returned expression", "warnings"])

prop("C10", "Definite integrals have the value of the integral",
     "Whenever integrate with bounds returns an expression for an integrand that is continuous on the interval, it does not contain the variable of integration and its value is the integral over the interval; "
     "exchanging the bounds changes the sign and the integral over an empty interval is 0. The bounds may be numbers, pi, e, or symbols.",
     ["inputs"], "every integrand that can be integrated, every interval on which it is continuous, every form in which the bounds can be given",
     "Errors by a branch or a wrong constant show only for particular bounds; tests use some ten definite integrals.",
     [I], [("bounds", I + ": integrate, Integration.integrate_bounds")], observe=["returned expression"])

prop("C11", "The integration search tree only records true facts",
     "In every tree that a search builds, each node that has a solution has one whose derivative is the node's integrand in the node's variable (the nodes inside an integration by parts that closes on itself hold parts of the solution), "
     "and the integrands of the children of an AND node add up to its own. A node that does not hold alternatives has one child, or needs all of them. A node counts as solved, failed or finished exactly when the children imply it, the search only works on unfinished leaves, every child knows its parent, integrands that come back below themselves are failures, and a search that gives up before its time limit has no unfinished or solved alternative left.",
     ["inputs", "histories"], "every search state reachable from every integrand, for every order in which leaves are worked on",
     "A wrong intermediate node can stay invisible because another alternative is solved first; tests only look at final answers and a few transforms.",
     [T, I], [("AND/OR status", T + ": Node.is_solved, is_failed, is_finished, unfinished_leaves, add_child"), ("next leaf", I + ": _get_next_node_post_heuristic, _get_best_leaf"),
              ("collecting the solution", I + ": _go_backwards")],
     state=[("node", "integrand, variable, type (AND, OR, FAILURE, SOLUTION), children, parent, transform, solution", T + ": Node")],
     observe=["the tree handed to the integration logger", "Node API"])

prop("C12", "Expressions never change after they are built",
     "No operation of the library changes an existing expression: after any sequence of calls (arithmetic, expand, simplify, diff, integrate, substitution, printing, matching ...), every expression created before still has the "
     "same structure, the same printed form and the same value, even when expressions share parts; lists and dictionaries passed in stay as they are.",
     ["histories", "programs"], "every sequence of library calls on any expressions that share sub-expressions",
     "Mutation of a shared list or cached object is visible only in a later use of another expression; tests build fresh expressions.",
     [E, R, S, T], [("rule 1: expressions are not mutated after construction", E + ": module docstring"), ("caches on the instances", E + ": _deconstruct_prod, deconstruct_power, remove_const_factor, expand")],
     state=[("caches", "expand, nesting, symbols, decomposition caches stored on expressions", E)], observe=["structure and printed form of all earlier expressions"])

prop("C13", "Results do not depend on what was computed before",
     "Every operation is a function of the structure of its arguments: repeating a call on the same or an equally built expression gives the same result, whatever was called in between and whichever caches were filled, "
     "also in a fresh process.",
     ["histories"], "every sequence of operations, compared with the same operation on freshly built arguments",
     "Caches keyed too coarsely or filled by one call and read by another need a particular earlier call; each test runs one computation.",
     [E, R], [("caches", E + ": nesting, symbols, expand, expandable, _deconstruct_prod, deconstruct_power, remove_const_factor"), ("any cache", R + ": get_anys"), ("special value caches", E + ": special_values")],
     state=[("caches", "per-instance and per-class caches", E)], observe=["results of repeated calls"])

prop("C14", "Equality and order of expressions obey their laws",
     "== is reflexive, symmetric and transitive on expressions and compares structure: expressions of the same structure are equal, those of different structure are not, and equal expressions have equal values. Between numbers (also plain Python ones) "
     "==, <, <=, >, >= agree with the order of the real numbers.",
     ["inputs"], "all pairs and triples of expressions and numbers",
     "Laws over pairs and triples of arbitrary expressions; comparisons with numbers of different kinds.",
     [E], [("comparison of numbers", E + ": Num.__eq__, __lt__ ..."), ("structural equality", E + ": dataclass equality, Symbol.__eq__")], observe=["results of the comparisons"])

prop("C15", "Pattern matching returns only true matches and finds instances",
     "When matching an expression against a pattern with wildcards succeeds, putting the reported matches for the wildcards into the pattern, times the reported factor and plus the reported rest when these were allowed, gives back the expression. "
     "Matching an expression obtained by instantiating a pattern of the kind the library uses succeeds, and matching against a pattern with the wrong functions, exponents or constants does not.",
     ["inputs"], "every expression, every pattern with one wildcard in the forms used by the library, with and without factor and rest",
     "Matches depend on sort order, factors and coincidences between terms; tests have about ten positive matches.",
     [R], [("match", R + ": eq, Eq, divide_anys, consolidate")], observe=["the returned result"])

prop("C16", "Structural queries and replacement agree with the structure",
     "symbols(), contains, has, count, nesting, the symbol count, comparison up to renaming and replacement of sub-expressions or function classes agree with the structure of the expression tree as defined: every occurrence is seen, nothing else is.",
     ["inputs"], "every expression, every query",
     "The queries recurse over all node kinds with special cases and caches; tests ask them about few trees.",
     [E, R, "src/simpy/utils.py"], [("queries", E + ": symbols, contains, has, nesting"), ("counting, replacement", R + ": count, general_count, replace, replace_class, replace_factory"), ("renaming", "src/simpy/utils.py: eq_with_var, count_symbols")],
     observe=["returned values"])

prop("C17", "Polynomials convert exactly and 2x2 inverses invert",
     "Converting an expression to a list of coefficients and back gives an expression with the same value, the coefficients are exactly those of the polynomial, and the conversion is refused for expressions that are not polynomials with constant coefficients; "
     "dropping trailing zeros changes only them, and the inverse of a 2x2 matrix times the matrix is the identity (None exactly for singular matrices).",
     ["inputs"], "every polynomial with rational coefficients of any degree, every non-polynomial, every 2x2 matrix of rationals",
     "Quantified over all coefficient lists; tests convert a few.",
     ["src/simpy/polynomial.py", "src/simpy/linalg.py"], [("conversion", "src/simpy/polynomial.py: to_const_polynomial, polynomial_to_expr, rid_ending_zeros"), ("inverse", "src/simpy/linalg.py: invert")],
     observe=["returned arrays and expressions"])

prop("C18", "Rational arithmetic is exact, floats and infinities behave",
     "Arithmetic on rational numbers of any size is exact and canonical (lowest terms): sums, products, quotients, integer powers, perfect rational roots, floor division and remainder agree with the mathematics. "
     "A number computed with a float has the value of the float computation, and infinities obey the usual rules (x/0 for nonzero x and sums with infinity give infinity, powers with infinity their limits).",
     ["inputs"], "all rationals of any magnitude, all exponents",
     "Large numbers, negative bases and mixed kinds take different paths; tests use small numbers.",
     [E], [("rational operators", E + ": Rat"), ("accumulation", E + ": accumulate, _accumulate_power, _exact_int_power")], observe=["returned numbers"])

prop("C19", "The printed form denotes the expression",
     "The printed form of an expression, read with the usual precedence of + - * / ^ and function application, denotes the same value as the expression: brackets are never missing, signs and denominators are in the right place.",
     ["inputs"], "every expression built from numbers, symbols (also with long names), sums, products, powers and functions",
     "Bracketing depends on combinations of parent and child; tests compare a few strings.",
     [E], [("repr", E + ": __repr__ of Sum, Prod, Power, SingleFunc, log, Rat; _repr")], observe=["repr()"])

prop("C20", "The LaTeX form denotes the expression",
     "The LaTeX form of an expression has balanced braces and delimiters and, read as mathematics, denotes the same value as the expression (floats in exponent notation, which have no LaTeX form of their own, are left out).",
     ["inputs"], "every expression built from numbers, symbols, sums, products, powers and functions",
     "As for the printed form; tests compare a few strings.",
     [E, "src/simpy/latex.py"], [("latex", E + ": latex methods"), ("brackets", "src/simpy/latex.py: bracketfy, group")], observe=["latex()"])

prop("C21", "Multinomial machinery is exact and complete",
     "The enumeration of exponent vectors of i terms with sum n contains each such vector exactly once and nothing else, and the multinomial coefficients are the exact integers of the multinomial theorem, for all i and n, and every time they are asked for, whatever the caller did with an earlier answer.",
     ["inputs"], "all numbers of terms and exponents", "Quantified over all i, n; tests check two cases.",
     ["src/simpy/combinatorics.py"], [("enumeration and coefficients", "src/simpy/combinatorics.py")], observe=["returned lists and integers"])

prop("C22", "Product-to-sum rewriting preserves the value",
     "Rewriting products and integer powers of sines and cosines (with any arguments and constant factors) as sums gives an expression of the same value (for products of two powers without products of two sines or cosines left in its terms), or reports that it does not apply.",
     ["inputs"], "every product of powers of sines and cosines with arbitrary arguments and factors",
     "Mixed products with several powers take different paths; tests contain five products.",
     ["src/simpy/simplify/product_to_sum.py"], [("rewriting", "src/simpy/simplify/product_to_sum.py")], observe=["returned expression"])

prop("C23", "Families of elementary integrals are always solved",
     "integrate finds a correct antiderivative for every polynomial, every power of a linear function, every constant multiple of table integrals (sin, cos, tan, sec, sec^2, exp, 2^u, log, sqrt, 1/u, 1/(1+u^2) ...) of a linear function u (whose coefficients are rational numbers or other symbols and constants), asin, acos, atan, polynomials times sin, cos or exp of a linear function, "
     "products of small powers of sin and cos, linear numerators over products of two linear functions, polynomials over a linear function, 1/q and 1/sqrt(q) for quadratics q with a linear term, x^(n-1) f(c x^n + d) for table functions f, e^(ax) times sin or cos of bx (a > 0) or e^(ax) f(e^(ax)) for sin, cos, powers and 1/(1+u), sin or cos times sin or cos of other multiples, tan sec^2, sec tan, csc cot, csc^2, tan^2, tan^3, sin^2 cos and their like of a linear function, and sums of the first of these up to the products of sines and cosines (without negative powers of sums when trigonometric functions occur).",
     ["inputs"], "every member of these families with rational coefficients, any variable name, extra symbolic constant factors",
     "Completeness over infinite families: a search that loses an alternative fails only on some members; tests fix single members.",
     [I, T, "src/simpy/integral_table.py"], [("search", I), ("transforms", T), ("table", "src/simpy/integral_table.py")], observe=["returned expression, not None"])

prop("C24", "Each integration transform step is a correct rewriting",
     "Each rule of the integrator that declares itself applicable to an integrand produces sub-integrals such that any antiderivatives of them are turned back into an antiderivative of the integrand, for every expression to which the rule applies and not only along the path the search takes.",
     ["inputs"], "every rule, every integrand to which it applies",
     "The search rarely composes all rules; a rule wrong on an unusual match stays invisible while another rule is tried first.",
     [T], [("rules", T + ": SAFE_TRANSFORMS, HEURISTICS and their check, forward, backward")], state=[("node", "integrand and its sub-integrals", T + ": Node")],
     observe=["children created by forward, solution created by backward"])

prop("C25", "All forms of a call agree",
     "A call written in a shorter or convenient form gives what the call with everything written out gives: plain Python numbers (int, float, Fraction) act as the library's numbers, with their exactness, in operators on either side (except Fraction ** expression, which Python itself decides), functions, log bases, lists of terms, substitutions, bounds, derivatives and integrals; "
     "integrate and diff without a variable use the only symbol of the expression and raise ValueError if there is not exactly one; sqrt, abs, minus, log with one argument, diff() and latex() are the same as the methods and classes they stand for; symbols() makes the listed symbols; eq() finds the pattern in either argument and refuses two patterns.",
     ["inputs"], "every form of call, every expression, every plain number",
     "Quantified over expressions, numbers and forms; tests use one form of each function at a time.",
     [E, I, R, "src/simpy/__init__.py"], [("casting", E + ": _cast, cast, operators, Sum, Prod, Power, log, subs, evalf"), ("call forms", I + ": integrate; " + E + ": diff, symbols, latex, sqrt; " + R + ": eq")],
     observe=["returned expressions, strings, raised errors"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
