"""What to execute and to record for each mode of job."""
from fractions import Fraction

import simpy.expr as X
from build import Abort, TooBig, apply, build, exc_tree, otree, size as build_size
from tree import tree


class Skip(Exception):
    """The job could not be set up (building its operands failed: judged by another property)."""


def mk(p):
    """builds an operand silently"""
    try:
        r = build(p)
    except TooBig:
        raise
    except Exception:
        raise Skip()
    return r if isinstance(r, X.Expr) else X.Const(r)


def call(f, *args, **kw):
    """result tree or exception tree"""
    try:
        return f(*args, **kw), None
    except (TooBig, Skip):
        raise
    except Exception as ex:
        return None, exc_tree(ex)


MODES = {}
CLOCK = [1.0]     # how fast the clock of the library runs, relative to processor time; or "ticks"
TICKS = [0.0]


def clock():
    import time
    if CLOCK[0] == "ticks":      # every look at the clock takes a tenth of a second
        TICKS[0] += 0.1
        return TICKS[0]
    return time.process_time() * CLOCK[0]


def mode(f):
    MODES[f.__name__[2:]] = f
    return f


def run(job, rec):
    MODES[job["m"]](job, rec)


@mode
def m_prog(job, rec):
    build(job["p"], rec)


@mode
def m_strict(job, rec):
    """one operation, judged wherever it is defined"""
    p = job["p"]
    args = [mk(q) for q in (p[2:] if p[0] == "fn" else p[1:])]
    ev = {"e": "strict", "op": p[1] if p[0] == "fn" else p[0], "in": [otree(v) for v in args]}
    r, ex = call(apply, p[0], args, p)
    ev["out"] = ex or otree(r)
    rec(ev)


def api(module, name):
    """a function of the library by name; a job for something that is no longer there is skipped"""
    import importlib
    try:
        return getattr(importlib.import_module(module), name)
    except (ImportError, AttributeError):
        raise Skip()


SIMP = "simpy.simplify.simplify"
PTS = "simpy.simplify.product_to_sum"


def or_none(v):
    return ["none"] if v is None else otree(v)


def method(t, name):
    f = getattr(t, name, None)
    if f is None:
        raise Skip()
    return f


CALLS = {
    "simplify": lambda t: t.simplify(),
    "trig_simplify": lambda t: api(SIMP, "trig_simplify")(t)[0],
    "pythag": lambda t: api(SIMP, "pythagorean_simplification")(t),
    "recip": lambda t: api(SIMP, "reciprocate_trigs")(t),
    "expand_logs": lambda t: api(SIMP, "expand_logs")(t),
    "onefrac": lambda t: api(SIMP, "rewrite_as_one_fraction")(t),
    "onefrac0": lambda t: api(SIMP, "rewrite_as_one_fraction")(t, False),     # constants in the denominators stay
    "factor": lambda t: t.factor(),
    "sectan": lambda t: api(SIMP, "sectan")(t),
    "combine": lambda t: t.simplify(),
    "pts": lambda t: api(PTS, "product_to_sum_unit")(t),
    "ptsum": lambda t: api(PTS, "product_to_sum")(t),
}

PAIRS = {
    "numden": lambda t: method(t, "numerator_denominator"),
    "constfactor": lambda t: api("simpy.expr", "remove_const_factor")(t, include_factor=True),
}


@mode
def m_call(job, rec):
    f = job["f"]
    t = mk(job["p"])
    ev = {"e": "call", "f": f, "in": tree(t)}
    if f == "expand":
        ev["expandable"] = t.expandable()
        r, ex = call(t.expand)
        ev["again"] = bool(r is not None and r.expandable())
    elif f == "diff":
        for v in job["a"]:
            s = X.symbols(v)
            d, ex = call(X.diff, t, s)
            rec({"e": "call", "f": f, "in": tree(t), "arg": v, "out": ex or otree(d)})
            if ex or not isinstance(d, X.Expr):
                return
            t = d
            if build_size(t) > 250:
                return
        return
    elif f in ("subs", "evalf"):
        a = [[n, mk(p)] for n, p in job["a"]]
        ev["arg"] = [[n, tree(v)] for n, v in a]
        r, ex = call(t.subs if f == "subs" else t.evalf, dict(a))
    else:
        if f == "factor" and not isinstance(t, X.Sum):
            raise Skip()
        if f in ("sectan", "ptsum", "trig_simplify") and not t.has(X.TrigFunction):
            raise Skip()
        if f == "sectan" and not isinstance(t, X.Sum):
            raise Skip()
        if f in ("numden", "constfactor"):      # two expressions
            r, ex = call(PAIRS[f], t)
            ev["out"] = ex or ["pair", otree(r[0]), otree(r[1])]
            rec(ev)
            return
        r, ex = call(CALLS[f], t)
        if f in ("sectan", "ptsum") and r is None and ex is None:
            raise Skip()     # no change
        if f == "pts":
            ev["pure"] = job.get("pure", False)
    ev["out"] = ex or or_none(r)
    rec(ev)


@mode
def m_print(job, rec):
    t = mk(job["p"])
    ev = {"e": "print", "f": job["f"], "in": tree(t), "text": ""}
    r, ex = call(repr, t) if job["f"] == "repr" else call(api("simpy.expr", "latex"), t)
    if ex is None and not isinstance(r, str):
        ex = ["exc", "TypeError", "not a string: %s" % type(r).__name__]
    if ex is None:
        ev["text"] = r
    ev["out"] = ex or ["chars"] + list(r)
    rec(ev)


@mode
def m_none(job, rec):
    pass


@mode
def m_canon(job, rec):
    """the same operands in several orders and groupings"""
    args = [mk(q) for q in job["args"]]
    outs, reprs, objs = [], [], []
    for q in job["ps"]:
        r, ex = call(build, q)
        if ex is None and not isinstance(r, X.Expr):
            r = X.Const(r)
        t = ex or otree(r)
        if t not in outs:
            outs.append(t)
        if ex is None:
            objs.append(r)
            s, ex = call(repr, r)
            if ex is None and s not in reprs:
                reprs.append(s)
    same = all(bool(u == objs[0]) and bool(objs[0] == u) for u in objs)
    ev = {"e": "canon", "op": job["op"], "in": [otree(a) for a in args], "out": outs[0], "outs": outs, "same": same, "reprs": reprs}
    if job.get("strict"):
        ev["strict"] = True
    rec(ev)


def plain(p):
    return p[0] in ("pint", "pfrac", "pflt")


CMP = {"eq": lambda a, b: a == b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}
MIRROR = {"eq": "eq", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}


@mode
def m_cmp(job, rec):
    a, b = (build(job[k]) if plain(job[k]) else mk(job[k]) for k in "ab")
    if not isinstance(a, X.Expr) and not isinstance(b, X.Expr):
        raise Skip()
    r, ex = call(CMP[job["op"]], a, b)
    q, ex2 = call(CMP[MIRROR[job["op"]]], b, a)
    n = None
    if job["op"] == "eq":
        n, _ = call(lambda: bool(a != b))
    rec({"e": "cmp", "op": job["op"], "in": [otree(a), otree(b)], "out": ex or ["bool", bool(r)], "mirror": ex2 or ["bool", bool(q)],
         "ne": ["none"] if n is None else ["bool", n]})


def anys(tr):
    return {tr[1]} if tr[0] == "any" else set().union(*[anys(u) for u in tr[1:] if isinstance(u, list)]) if len(tr) > 1 else set()


@mode
def m_match(job, rec):
    eq = api("simpy.regex", "eq")
    t, q = mk(job["p"]), mk(job["q"])
    keys = sorted(anys(tree(q)))
    if not keys:
        raise Skip()
    ev = {"e": "match", "in": [tree(t), tree(q)], "utf": job["utf"], "uts": job["uts"], "must": job["must"]}
    if job.get("strict"):
        ev["strict"] = True
    r, ex = call(eq, t, q, up_to_factor=job["utf"], up_to_sum=job["uts"])
    if ex:
        ev["out"] = ex
    else:
        ok = bool(r["success"])
        ev["out"] = ["bool", ok]
        if ok:
            m = r["matches"]
            if isinstance(m, dict):
                ev["matches"] = [[k, otree(v)] for k, v in m.items()]
            else:
                ev["matches"] = [[keys[0], otree(m)]]
            if job["utf"]:
                ev["factor"] = otree(r["factor"])
            if job["uts"]:
                ev["rest"] = otree(r["rest"])
    rec(ev)


def as_value(v):
    """a query result"""
    if isinstance(v, bool):
        return ["bool", v]
    if isinstance(v, int):
        return ["int", v]
    return otree(v)


def q_symbols(t, a):
    names = [s.name for s in t.symbols()]
    return ["names"] + sorted(names)


QUERIES = {
    "symbols": q_symbols,
    "contains": lambda t, a: as_value(bool(t.contains(X.symbols(a["v"])))),
    "has": lambda t, a: as_value(bool(t.has(getattr(X, a["v"])))),
    "count": lambda t, a: as_value(api("simpy.regex", "count")(t, mk(a["q"]))),
    "nesting": lambda t, a: as_value(api("simpy.expr", "nesting")(t)),
    "nesting_var": lambda t, a: as_value(api("simpy.expr", "nesting")(t, X.symbols(a["v"]))),
    "count_symbols": lambda t, a: as_value(api("simpy.utils", "count_symbols")(t)),
    "eq_with_var": lambda t, a: as_value(bool(api("simpy.utils", "eq_with_var")((t, X.symbols(a["v"])), (mk(a["q"]), X.symbols(a["w"]))))),
    "replace": lambda t, a: otree(api("simpy.regex", "replace")(t, mk(a["q"]), mk(a["n"]))),
    "replace_class": lambda t, a: otree(api("simpy.regex", "replace_class")(t, [X.sin, X.tan], [X.cos, lambda u: u * u + 2])),
}


@mode
def m_query(job, rec):
    t, a, f = mk(job["p"]), job["a"], job["f"]
    ev = {"e": "query", "f": f, "in": tree(t), "arg": {}}
    for k in a:
        ev["arg"][k] = a[k] if k in "vw" else tree(mk(a[k]))
    r, ex = call(QUERIES[f], t, a)
    ev["out"] = ex or r
    rec(ev)


@mode
def m_poly(job, rec):
    f, x = job["f"], X.symbols("x")
    ev = {"e": "poly", "f": f}
    import numpy as np
    if f == "to":
        t = mk(job["p"])
        ev["in"] = tree(t)
        r, ex = call(api("simpy.polynomial", "to_const_polynomial"), t, x)
        ev["is"] = bool(api("simpy.polynomial", "is_polynomial")(t, x))
        if ex is None:
            ev["out"] = ["list"] + [otree(u) for u in list(r)]
            b, ex = call(api("simpy.polynomial", "polynomial_to_expr"), r, x)
            ev["back"] = ex or otree(b)
        else:
            ev["out"] = ex
    else:
        a = [mk(p) for p in job["a"]]
        ev["in"] = ["list"] + [otree(u) for u in a]
        if f == "from":
            r, ex = call(api("simpy.polynomial", "polynomial_to_expr"), np.array(a), x)
            ev["out"] = ex or otree(r)
        elif f == "zeros":
            r, ex = call(api("simpy.polynomial", "rid_ending_zeros"), np.array(a))
            ev["out"] = ex or ["list"] + [otree(u) for u in list(r)]
        else:
            r, ex = call(api("simpy.linalg", "invert"), np.array([[a[0], a[1]], [a[2], a[3]]]))
            ev["out"] = ex or (["none"] if r is None else ["list"] + [otree(u) for u in [r[0, 0], r[0, 1], r[1, 0], r[1, 1]]])
    rec(ev)


NUMOPS = {"reciprocal": lambda a: method(a, "reciprocal")(), "sqrt": lambda a: X.sqrt(a), "cbrt": lambda a: a ** X.Rat(Fraction(1, 3)),
          "root4": lambda a: a ** X.Rat(Fraction(1, 4)), "abs": abs}


@mode
def m_num(job, rec):
    op = job["op"]
    a = [build(p) if plain(p) else mk(p) for p in job["a"]]
    ev = {"e": "num", "op": op, "in": [otree(v) for v in a]}
    if op in NUMOPS:
        r, ex = call(NUMOPS[op], a[0])
    elif op in CMP:
        r, ex = call(CMP[op], a[0], a[1])
        r = r if ex else bool(r)
    else:
        r, ex = call(apply, op, a, [op])
    ev["out"] = ex or (["bool", r] if isinstance(r, bool) else otree(r))
    rec(ev)


@mode
def m_comb(job, rec):
    if job["f"] == "perms":
        r, ex = call(api("simpy.combinatorics", "generate_permutations"), job["i"], job["n"])
        rec({"e": "comb", "f": "perms", "i": job["i"], "n0": job["n"], "out": ex or ["list"] + [[int(v) for v in u] for u in r]})
        # the caller may do what it likes with the answer: the next one is the same
        if ex is None and isinstance(r, list) and r and job["i"] * job["n"] < 20:
            if isinstance(r[0], list) and r[0]:
                r[0][0] = 99
            r.pop()
            r, ex = call(api("simpy.combinatorics", "generate_permutations"), job["i"], job["n"])
            rec({"e": "comb", "f": "perms", "i": job["i"], "n0": job["n"], "out": ex or ["list"] + [[int(v) for v in u] for u in r]})
    else:
        r, ex = call(api("simpy.combinatorics", "multinomial_coefficient"), list(job["xs"]), job["n"])
        rec({"e": "comb", "f": "coef", "in": job["xs"], "n0": job["n"], "out": ex or (["num", str(r)] if isinstance(r, int) else ["other", repr(r)])})


# ---------------------------------------------------------------------------------------------- integration
INTEGRATION = "simpy.integration"


def integrated(t, var, bounds=None, **kw):
    """calls integrate; returns tree of the result (or exception) and whether there was a warning"""
    import warnings
    integrate = api(INTEGRATION, "integrate")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v = X.symbols(var)
        r, ex = call(integrate, t, v if bounds is None else (v,) + tuple(bounds), **kw)
    return (ex or or_none(r)), any(issubclass(u.category, UserWarning) for u in w), r


def no_random_names(tr, known):
    """symbols that are neither in the input nor short names: leaked intermediate variables keep a fixed name"""
    if tr[0] == "sym":
        return tr if tr[1] in known or not tr[1].startswith("u_") else ["sym", "leaked"]
    return [tr[0]] + [no_random_names(u, known) if isinstance(u, list) else u for u in tr[1:]]


def integration_kw(job):
    return {"breadth_first": True} if job.get("bf") else {}


@mode
def m_int(job, rec):
    t = mk(job["p"])
    names = {s.name for s in t.symbols()} | {job["v"]}
    ev = {"e": "int", "in": tree(t), "var": job["v"], "bf": bool(job.get("bf")), "must": bool(job.get("must"))}
    if job.get("strict"):
        ev["strict"] = True
    out, warned, _ = integrated(t, job["v"], **integration_kw(job))
    if job.get("must") and out == ["none"]:
        CLOCK[0] = 0.1     # not an effect of the time limit?
        try:
            out, warned, _ = integrated(t, job["v"], **integration_kw(job))
        finally:
            CLOCK[0] = 1.0
    rec(dict(ev, out=no_random_names(out, names), warned=warned))


@mode
def m_defint(job, rec):
    t = mk(job["p"])
    a, b = mk(job["a"]), mk(job["b"])
    ev = {"e": "defint", "in": tree(t), "var": job["v"], "a": tree(a), "b": tree(b)}
    names = {s.name for u in (t, a, b) for s in u.symbols()} | {job["v"]}
    if job.get("short"):     # integrate(f, (a, b))
        if [s.name for s in t.symbols()] != [job["v"]]:
            raise Skip()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, ex = call(api(INTEGRATION, "integrate"), t, (a, b))
        out = ex or or_none(r)
    else:
        out, _, _ = integrated(t, job["v"], (a, b))
    rec(dict(ev, out=no_random_names(out, names)))


# ---------------------------------------------------------------------------------------------- forms of calls
def number(p):
    """a plain Python number, and the library's number for it"""
    return (build(p), X.Const(build(p))) if plain(p) else (mk(p), mk(p))


FORM_FNS = {"log": lambda a: X.log(a), "sqrt": lambda a: X.sqrt(a), "abs": lambda a: X.Abs(a), "log2": lambda a: X.log(a, 2), "exp": lambda a: X.Power(X.e, a)}
CANON_FNS = dict(FORM_FNS, log2=lambda a: X.log(a, X.Rat(2)), log=lambda a: X.log(a, X.e), sqrt=lambda a: X.Power(a, X.Rat(Fraction(1, 2))))
UNARY = {  # the form, and the canonical call
    "latex": (lambda t: api("simpy", "latex")(t), lambda t: t.latex()),
    "neg": (lambda t: -t, lambda t: X.Prod([X.Rat(-1), t])),
    "abs": (lambda t: abs(t), lambda t: X.Abs(t)),
    "sqrt": (lambda t: X.sqrt(t), lambda t: X.Power(t, X.Rat(Fraction(1, 2)))),
    "log1": (lambda t: X.log(t), lambda t: X.log(t, X.e)),
    "pos2": (lambda t: t ** 2, lambda t: X.Power(t, X.Rat(2))),
    "diff1": (lambda t: X.diff(t, X.symbols("x")), lambda t: t.diff(X.symbols("x"))),
}


def form_outcome(f, canon_names=()):
    """tree of what a call returns or raises, the names of intermediate variables and the clock being the same each time"""
    import random
    import warnings
    random.seed(7)
    CLOCK[0], TICKS[0] = "ticks", 0.0
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, ex = call(f)
    finally:
        CLOCK[0] = 1.0
    if ex:
        return ex
    if isinstance(r, bool):
        return ["bool", r]
    if isinstance(r, str):
        return ["text", r]
    if isinstance(r, (list, tuple)):
        return ["list"] + [tree(u) for u in r]
    return ["none"] if r is None else tree(r)      # a plain Python number is not an expression


def matched(q):
    def go(r):
        keys = sorted(anys(tree(q)))
        if not r["success"]:
            return ["no"]
        m = r["matches"]
        m = {k: v for k, v in m.items()} if isinstance(m, dict) else {keys[0]: m}
        return ["yes"] + [["m", k, otree(m[k])] for k in sorted(m)] + [["f", otree(r[k])] for k in ("factor", "rest") if k in r]
    return go


@mode
def m_form(job, rec):
    f = job["f"]
    ev = {"e": "form", "f": f, "in": ["none"], "op": job.get("op") or job.get("fn") or ""}

    def done(out, canon):
        rec(dict(ev, out=out, canon=canon))

    def both(form, canon):
        done(form_outcome(form), form_outcome(canon))

    if f == "op":
        n, c = number(job["n"])
        if job["op"] == "pow" and job["side"] == "L" and isinstance(n, Fraction):
            raise Skip()      # Python itself turns the fraction into a float
        op = CMP["eq"] if job["op"] == "eq" else lambda a, b: apply(job["op"], [a, b], [job["op"]])
        ev["in"] = tree(mk(job["p"]))
        if job["side"] == "L":
            ev["args"] = [tree(c), ev["in"]]
            both(lambda: op(n, mk(job["p"])), lambda: op(c, mk(job["p"])))
        else:
            ev["args"] = [ev["in"], tree(c)]
            both(lambda: op(mk(job["p"]), n), lambda: op(mk(job["p"]), c))
    elif f == "fn":
        n, c = number(job["n"])
        ev["args"] = [tree(c)]
        fn = job["fn"]
        both(lambda: FORM_FNS[fn](n) if fn in FORM_FNS else apply("fn", [n], ["fn", fn]), lambda: CANON_FNS[fn](c) if fn in CANON_FNS else apply("fn", [c], ["fn", fn]))
    elif f == "logb":
        n, c = number(job["n"])
        ev["in"] = tree(mk(job["p"]))
        ev["args"] = [ev["in"], tree(c)] if job["side"] == "R" else [tree(c), ev["in"]]
        if job["side"] == "R":
            both(lambda: X.log(mk(job["p"]), n), lambda: X.log(mk(job["p"]), c))
        else:
            both(lambda: X.log(n, mk(job["p"])), lambda: X.log(c, mk(job["p"])))
    elif f == "list":
        cls = X.Sum if job["op"] == "sum" else X.Prod
        ev["args"] = [tree(number(q)[1]) for q in job["ps"]]
        both(lambda: cls([number(q)[0] for q in job["ps"]]), lambda: cls([number(q)[1] for q in job["ps"]]))
    elif f == "subst":
        ev["in"] = tree(mk(job["p"]))
        ev["args"] = []
        both(lambda: getattr(mk(job["p"]), job["op"])({k: number(q)[0] for k, q in job["a"]}), lambda: getattr(mk(job["p"]), job["op"])({k: number(q)[1] for k, q in job["a"]}))
    elif f == "symbols":
        ev["args"] = job["names"]
        both(lambda: X.symbols(" ".join(job["names"])), lambda: [X.Symbol(k) for k in job["names"]] if len(job["names"]) > 1 else X.Symbol(job["names"][0]))
    elif f == "eqswap":
        eq = api("simpy.regex", "eq")
        kw = {"up_to_factor": job["utf"], "up_to_sum": job["uts"]}
        ev["in"], ev["args"] = tree(mk(job["p"])), [tree(mk(job["q"]))]

        def ask(swap):
            t, q = mk(job["p"]), mk(job["q"])
            r, ex = call(lambda: matched(q)(eq(q, t, **kw) if swap else eq(t, q, **kw)))
            return ex or r
        done(ask(True), ask(False))
    elif f == "ofnum":
        n, c = number(job["n"])
        ev["args"] = [tree(c)]
        fn = api(INTEGRATION, "integrate") if job["op"] == "int" else X.diff
        both(lambda: fn(n, X.symbols("x")), lambda: fn(c, X.symbols("x")))
    else:
        ev["in"] = tree(mk(job["p"]))
        names = sorted(tree_names(ev["in"]))
        v = X.symbols(names[0] if names else "x")
        ev["args"] = [["sym", v.name]]
        integrate = api(INTEGRATION, "integrate")
        if f == "defint":
            (a, ca), (b, cb) = number(job["a"]), number(job["b"])
            ev["op"] = job["form"]
            if job["form"] == "short":
                both(lambda: integrate(mk(job["p"]), (a, b)), lambda: integrate(mk(job["p"]), (v, ca, cb)))
            elif job["form"] == "long":
                both(lambda: integrate(mk(job["p"]), (v, a, b)), lambda: integrate(mk(job["p"]), (v, ca, cb)))
            else:
                both(lambda: integrate(expr=mk(job["p"]), bounds=(v, a, b)), lambda: integrate(mk(job["p"]), (v, ca, cb)))
        elif job["op"] == "int1":
            both(lambda: integrate(mk(job["p"])), lambda: integrate(mk(job["p"]), v))
        elif job["op"] == "diff0":
            both(lambda: X.diff(mk(job["p"])), lambda: X.diff(mk(job["p"]), v))
        else:
            form, canon = UNARY[job["op"]]
            both(lambda: form(mk(job["p"])), lambda: canon(mk(job["p"])))


def tree_names(tr):
    return {tr[1]} if tr[0] == "sym" else set().union(set(), *[tree_names(u) for u in tr[1:] if isinstance(u, list)])


TRANSFORMS = "simpy.transforms"
MAXNODES = 120


def own_names(e, var, names):
    """the tree of an expression whose variable of integration may have a random name (then: "u")"""
    def go(tr):
        if tr[0] == "sym":
            if tr[1] in names:
                return tr
            return ["sym", "u"] if tr[1] == var.name else ["sym", "leaked"]
        return [tr[0]] + [go(u) if isinstance(u, list) else u for u in tr[1:]]
    return go(tree(e))


def own_var(var, names):
    return var.name if var.name in names else "u"


class Recorder:
    """takes the place of simpy.debug.logger.Logger"""
    def __init__(self):
        self.logged = []

    def log(self, expr, time_spent, root):
        self.logged.append((expr, time_spent, root))


def nodes_of(root):
    out, stack = [], [root]
    while stack:
        n = stack.pop()
        out.append(n)
        if len(out) > MAXNODES:
            raise Skip()
        stack.extend(reversed(n.children))
    return out


def status(ns):
    """what the library says about the nodes ns (the first of them is the root)"""
    ids = {id(n): k + 1 for k, n in enumerate(ns)}
    return [{"ty": n.type, "ch": [ids[id(c)] for c in n.children], "pa": 0 if n.parent is None else ids.get(id(n.parent), -1),
             "sv": bool(n.is_solved), "fl": bool(n.is_failed), "fn": bool(n.is_finished),
             "uf": [ids[id(c)] for c in n.unfinished_leaves], "lv": [ids[id(c)] for c in n.leaves], "rt": ids.get(id(n.root), -1),
             "st": str(bool(n.is_stale)).upper() if hasattr(n, "is_stale") else "", "di": getattr(n, "distance_from_root", -1),
             "uc": [ids[id(c)] for c in n.unfinished_children]} for n in ns]


@mode
def m_tree(job, rec):
    t = mk(job["p"])
    names = {s.name for s in t.symbols()} | {job["v"]}
    if "u" in names:
        raise Skip()
    cls = api(INTEGRATION, "Integration")
    old, r = cls.logger, Recorder()
    cls.logger = r
    try:
        out, warned, _ = integrated(t, job["v"], **integration_kw(job))
    finally:
        cls.logger = old
    if len(r.logged) != 1:
        raise Skip()
    _, spent, root = r.logged[0]
    ns = nodes_of(root)
    st = status(ns)
    for n, s in zip(ns, st):
        s.update(ex=own_names(n.expr, n.var, names), var=own_var(n.var, names), tr=type(n.transform).__name__, fi=bool(n.is_filler),
                 so=["none"] if n.solution is None else own_names(n.solution, n.var, names))
    rec({"e": "tree", "in": tree(t), "var": job["v"], "bf": bool(job.get("bf")), "nodes": st,
         "out": "none" if out == ["none"] else "exc" if out[0] == "exc" else "expr", "late": spent >= 2})


@mode
def m_nodes(job, rec):
    """a history of operations on a tree of nodes"""
    Node = api(TRANSFORMS, "Node")
    x = X.symbols("x")
    ns = [Node(x ** job["root"], x)]
    hist, states = [], []
    for op in job["ops"]:
        k = (op[1] - 1) % len(ns)
        if op[0] == "add":
            n = Node(x ** op[3] if op[3] > 0 else X.sin(x), x, None, ns[k], type=op[2])
            ns[k].add_child(n)
            ns.append(n)
        else:
            ns[k].type = op[2]
        hist.append([op[0], k + 1] + list(op[2:]))
        states.append(status(ns))
    rec({"e": "nodes", "root": job["root"], "ops": hist, "states": states})


@mode
def m_search(job, rec):
    """the search on an AND/OR graph of goals: goal g has alternatives, each a list of goals; scripted transforms"""
    Node, HEUR, SAFE = api(TRANSFORMS, "Node"), api(TRANSFORMS, "HEURISTICS"), api(TRANSFORMS, "SAFE_TRANSFORMS")
    Transform = api(TRANSFORMS, "Transform")
    cls = api(INTEGRATION, "Integration")
    if not (isinstance(HEUR, list) and isinstance(SAFE, list)):
        raise Skip()
    x = X.symbols("x")
    graph = job["graph"]
    # goals that the table solves are powers, the others are in no table
    exprs = [x ** (g + 2) if graph[g] == [[0]] else X.sin(x ** (g + 2)) for g in range(len(graph))]

    def goal(e):
        for g, u in enumerate(exprs):
            if u == e:
                return g
        return None

    def scripted(k):
        class Scripted(Transform):
            def check(self, node):
                g = goal(node.expr)
                return g is not None and not node.is_filler and len(graph[g]) > k

            def forward(self, node):
                subs = graph[goal(node.expr)][k]
                if len(subs) == 1:
                    node.add_child(Node(exprs[subs[0] - 1], x, self, node))
                    return
                mid = Node(node.expr, x, self, node, type="AND", is_filler=True)
                mid.add_children([Node(exprs[s - 1], x, Pass(), mid) for s in subs])
                node.add_child(mid)

            def backward(self, node):
                super().backward(node)
                node.parent.solution = node.solution

        class Pass(Transform):
            def check(self, node):
                return False

            def forward(self, node):
                pass

            def backward(self, node):
                super().backward(node)
                if not all(c.solution for c in node.parent.children):
                    raise ValueError("not all of them")
                node.parent.solution = node.solution
        return Scripted

    old = HEUR[:], SAFE[:], cls.logger
    r = Recorder()
    HEUR[:] = [scripted(k) for k in range(3)]
    SAFE[:] = []
    cls.logger = r
    try:
        out, warned, _ = integrated(exprs[0], "x", **integration_kw(job))
    finally:
        HEUR[:], SAFE[:], cls.logger = old
    if len(r.logged) != 1:
        late, ns = False, []
    else:
        late, ns = r.logged[0][1] >= 2, status(nodes_of(r.logged[0][2]))
    rec({"e": "search", "graph": graph, "bf": bool(job.get("bf")), "late": late, "nodes": ns, "warned": warned,
         "res": "none" if out == ["none"] else "exc " + out[1] + ": " + out[2] if out[0] == "exc" else "expr"})


FNAMES = ["n", "m", "k", "w", "v", "xx"]


@mode
def m_law(job, rec):
    """every transform that applies to the integrand, with unknown antiderivatives of the sub-integrals"""
    Node, HEUR, SAFE = api(TRANSFORMS, "Node"), api(TRANSFORMS, "HEURISTICS"), api(TRANSFORMS, "SAFE_TRANSFORMS")
    t = mk(job["p"])
    if job.get("simp"):
        t, ex = call(t.simplify)
        if ex:
            raise Skip()
    var = X.symbols(job["v"])
    names = {s.name for s in t.symbols()} | {job["v"]}
    if names & set(FNAMES + ["u"]):
        raise Skip()
    for cls in list(SAFE) + list(HEUR):
        ev = {"e": "law", "tr": cls.__name__, "in": tree(t), "var": job["v"]}
        node = Node(t, var)
        tr = cls()
        ok, ex = call(tr.check, node)
        if ex:
            rec(dict(ev, k="exc", out=ex))
            continue
        if not ok:
            continue
        _, ex = call(tr.forward, node)
        if ex:
            rec(dict(ev, k="exc", out=ex))
            continue
        groups = [list(node.children)] if node.type == "AND" else [[c] for c in node.children]
        for i, group in enumerate(groups):
            law(dict(ev, alt=i), node, group, names, rec)


def leaves_of(n):
    return [n] if not n.children else [l for c in n.children for l in leaves_of(c)]


def law(ev, node, group, names, rec):
    leaves = [l for c in group for l in leaves_of(c)]
    unknown = [l for l in leaves if l.type != "SOLUTION"]
    given = {id(l): l.solution for l in leaves if l.type == "SOLUTION"}
    if len(unknown) > len(FNAMES):
        return
    if any(l.var.name not in names for l in unknown) and len(leaves) > 1:
        return

    def back(sols):
        inner = [n for c in group for n in subtree(c)]
        for n in inner:
            n.solution = None
        node.solution = None
        for l in leaves:
            l.solution = given[id(l)] if id(l) in given else sols[id(l)]
        for l in leaves:
            c = l
            while c is not node:
                try:
                    c.transform.backward(c)
                except ValueError:
                    break
                c = c.parent
        return node.solution

    fs = [X.symbols(f) for f in FNAMES[:len(unknown)]]
    bs, ex = call(back, {id(l): f for l, f in zip(unknown, fs)})
    if ex is None and bs is None:
        ex = ["exc", "none", "backward gave no solution"]
    if ex:
        rec(dict(ev, k="exc", out=ex))
        return
    bi = None
    if len(unknown) == 1 and unknown[0].var.name not in names:
        bi, ex = call(back, {id(unknown[0]): unknown[0].var})
        if ex:
            rec(dict(ev, k="exc", out=ex))
            return
    allowed = names | set(FNAMES)
    rec(dict(ev, k="law", fs=[f.name for f in fs], ch=[{"ex": own_names(l.expr, l.var, names), "var": own_var(l.var, names)} for l in unknown],
             out=[own_names(bs, node.var, allowed), ["none"] if bi is None else own_names(bi, node.var, allowed)]))


def subtree(n):
    return [n] + [m for c in n.children for m in subtree(c)]
