"""Sessions: histories of library calls on a heap of shared expressions (spec/Session.tla).

The steps of a session are <<kind, ...>>:
  ["new", program]              builds an expression
  ["op", name, [i, j, k], arg]  calls an operation on the objects i, j, k (taken modulo the number of objects)
  ["again", s]                  repeats step s with the same objects
After every step all objects are observed again (structure and printed form).  A pristine process, forked before
any expression was built, computes every result once more from equally built arguments.
"""
import json
import os
import signal
import sys
import tempfile
from fractions import Fraction

import simpy.expr as X
from build import TooBig, apply, build, size as build_size
from modes import CALLS, CLOCK, Skip, api, mk, mode
from tree import tree, FNS

MAXS = 120


def obs(v):
    """a value as JSON: expressions with structure and printed form"""
    if isinstance(v, X.Expr):
        try:
            r = repr(v)
        except Exception as ex:
            r = "exc " + type(ex).__name__
        return [tree(v), r]
    if isinstance(v, (bool, int, float, str, type(None))):
        return ["val", repr(v)]
    if isinstance(v, dict):
        return ["dict"] + [[str(k), obs(v[k])] for k in sorted(v, key=str)]
    if isinstance(v, (list, tuple)) or type(v).__name__ == "ndarray":
        return ["list"] + [obs(u) for u in v]
    if isinstance(v, Raised):
        return ["exc", v.name]
    return ["other", type(v).__name__]


class Raised:
    def __init__(self, ex):
        self.name = type(ex).__name__


class Checked:
    """a result, and whether the container given to the library and the result are still what they were"""
    def __init__(self, value, ok):
        self.value, self.ok = value, ok


def dict_subs(o):
    d = {"x": o[1], "y": o[2]}
    before = [(k, id(d[k])) for k in d]
    r = o[0].subs(d)
    same = [(k, id(d[k])) for k in d] == before
    seen = json.dumps(obs(r))
    d["x"] = X.Rat(17)
    return Checked(r, same and json.dumps(obs(r)) == seen)


def plain_dict(o, method):
    """subs or evalf with a dictionary of plain numbers of the caller"""
    d = {"x": 2, "y": Fraction(1, 2), "z": 0.5}
    before = [(k, id(d[k])) for k in d]
    r = getattr(o[0], method)(d)
    same = [(k, id(d[k])) for k in d] == before
    seen = json.dumps(obs(r))
    d["x"], d["y"] = 3, 5
    return Checked(r, same and json.dumps(obs(r)) == seen)


def plain_list(cls, o):
    terms = [1, o[0], Fraction(1, 3), 0.5, o[0], 2]
    before = [id(t) for t in terms]
    r = cls(terms)
    same = [id(t) for t in terms] == before
    seen = json.dumps(obs(r))
    terms[0] = 7
    del terms[3:]
    return Checked(r, same and json.dumps(obs(r)) == seen)


def arrays(o):
    """the arrays of coefficients that the polynomial functions take and give"""
    M = "simpy.polynomial"
    p = api(M, "to_const_polynomial")(o[0], X.symbols("x"))
    q = [X.Rat(2), X.Rat(0), X.Rat(0)]
    m = api("simpy.linalg", "invert")
    import numpy as np
    mat = np.array([[X.Rat(1), X.Rat(2)], [X.Rat(3), X.Rat(5)]])
    given = [list(p), list(q), [list(u) for u in mat]]
    before = json.dumps([obs(u) for u in given])
    r = [api(M, "polynomial_to_expr")(p, X.symbols("x")), list(api(M, "rid_ending_zeros")(np.array(q))), [list(u) for u in m(mat)], list(p)]
    same = json.dumps([obs(list(p)), obs(list(q)), obs([list(u) for u in mat])]) == before
    seen = json.dumps(obs(r[:3]))
    p[0] = X.Rat(17)
    again = list(api(M, "to_const_polynomial")(o[0], X.symbols("x")))
    return Checked(r, same and json.dumps(obs(r[:3])) == seen and json.dumps(obs(again)) == json.dumps(obs(given[0])))


def lists_of_classes(o):
    a, b = [X.sin, X.tan], [X.cos, lambda u: u + 1]
    before = [id(u) for u in a + b]
    r = api("simpy.regex", "replace_class")(o[0], a, b)
    return Checked(r, [id(u) for u in a + b] == before)


def listed(cls, objs):
    """a sum or product of a list that the caller uses again afterwards"""
    terms = list(objs)
    before = [id(t) for t in terms]
    r = cls(terms)
    same = [id(t) for t in terms] == before
    seen = json.dumps(obs(r))
    terms.append(X.Rat(17))
    terms[0] = X.Rat(19)
    return Checked(r, same and json.dumps(obs(r)) == seen)


def matched(t, q, **kw):
    return api("simpy.regex", "eq")(t, q, **kw)


PATTERNS = {}      # a session uses the same pattern objects again and again


def pattern(name, a):
    if not PATTERNS:
        PATTERNS.update(patterns())
    return PATTERNS[name]


def patterns():
    A = api("simpy.regex", "Any_")("k")
    return {"sin2": X.sin(A) ** 2, "sum": X.sin(A) ** 2 + X.cos(A) ** 2, "log": X.log(A), "pow": A ** 2, "tan": 1 + X.tan(A) ** 2, "add": A + 1,
            "exp": X.e ** A, "sq": X.Power(1 - A ** 2, X.Rat(-1, 2)), "any": A}


def integrate(t, v, bounds=None, **kw):
    import warnings
    f = api("simpy.integration", "integrate")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = X.symbols(v)
        return f(t, s if bounds is None else (s,) + bounds, **kw)


def transforms_of(t):
    """the children that each transform makes of an integrand; intermediate variables are renamed"""
    Node, HEUR, SAFE = api("simpy.transforms", "Node"), api("simpy.transforms", "HEURISTICS"), api("simpy.transforms", "SAFE_TRANSFORMS")
    x = X.symbols("x")
    out = []
    for cls in list(SAFE) + list(HEUR):
        n = Node(t, x)
        tr = cls()
        if tr.check(n):
            tr.forward(n)
            out.append([cls.__name__] + [c.expr.subs({c.var.name: X.symbols("u")}) for c in n.children])
    return out


OPS = {
    # constructors: the results become objects
    "add": lambda o, a: o[0] + o[1], "sub": lambda o, a: o[0] - o[1], "mul": lambda o, a: o[0] * o[1], "div": lambda o, a: o[0] / o[1],
    "pow": lambda o, a: o[0] ** X.Rat(a), "neg": lambda o, a: -o[0], "sqrt": lambda o, a: X.sqrt(o[0]), "fn": lambda o, a: FNS[a](o[0]),
    "log": lambda o, a: X.log(o[0]), "abs": lambda o, a: abs(o[0]), "sum": lambda o, a: X.Sum(list(o)), "prod": lambda o, a: X.Prod(list(o)),
    "scale": lambda o, a: a * o[0], "epow": lambda o, a: X.e ** o[0],
    # operations that give expressions
    "expand": lambda o, a: o[0].expand() if o[0].expandable() else None, "simplify": lambda o, a: o[0].simplify(),
    "diff": lambda o, a: X.diff(o[0], X.symbols(a)), "subs": lambda o, a: o[0].subs({a: o[1]}), "swap": lambda o, a: o[0].subs({"x": X.symbols("y"), "y": X.symbols("x")}),
    "evalf": lambda o, a: o[0].evalf({"x": X.Float(0.75), "y": X.Rat(2)}), "factor": lambda o, a: o[0].factor() if isinstance(o[0], X.Sum) else None,
    "trig_simplify": lambda o, a: CALLS["trig_simplify"](o[0]) if o[0].has(X.TrigFunction) else None, "pythag": lambda o, a: CALLS["pythag"](o[0]),
    "recip": lambda o, a: CALLS["recip"](o[0]), "expand_logs": lambda o, a: CALLS["expand_logs"](o[0]), "onefrac": lambda o, a: CALLS["onefrac"](o[0]), "pts": lambda o, a: CALLS["pts"](o[0]),
    "integrate": lambda o, a: integrate(o[0], a), "integrate_bf": lambda o, a: integrate(o[0], a, breadth_first=True),
    "defint": lambda o, a: integrate(o[0], a, (X.Rat(1), X.Rat(2))),
    "replace": lambda o, a: api("simpy.regex", "replace")(o[0], o[1], o[2]), "replace_class": lambda o, a: api("simpy.regex", "replace_class")(o[0], [X.sin, X.tan], [X.cos, lambda u: u + 1]),
    # queries
    "latex": lambda o, a: o[0].latex(), "repr": lambda o, a: repr(o[0]), "nesting": lambda o, a: api("simpy.expr", "nesting")(o[0]), "nesting_var": lambda o, a: api("simpy.expr", "nesting")(o[0], X.symbols(a)),
    "symbols": lambda o, a: sorted(s.name for s in o[0].symbols()), "contains": lambda o, a: bool(o[0].contains(X.symbols(a))), "has": lambda o, a: bool(o[0].has(X.TrigFunction)),
    "expandable": lambda o, a: bool(o[0].expandable()), "eq": lambda o, a: [bool(o[0] == o[1]), bool(o[1] == o[0])], "count": lambda o, a: api("simpy.regex", "count")(o[0], o[1]),
    "numden": lambda o, a: list(o[0].numerator_denominator) if isinstance(o[0], X.Prod) else None, "is_subtraction": lambda o, a: bool(o[0].is_subtraction),
    "match": lambda o, a: matched(o[0], pattern(a, o)), "match_f": lambda o, a: matched(o[0], pattern(a, o), up_to_factor=True), "match_s": lambda o, a: matched(o[0], pattern(a, o), up_to_sum=True),
    "poly": lambda o, a: list(api("simpy.polynomial", "to_const_polynomial")(o[0], X.symbols("x"))), "eq_with_var": lambda o, a: bool(api("simpy.utils", "eq_with_var")((o[0], X.symbols("x")), (o[1], X.symbols("y")))),
    "count_symbols": lambda o, a: api("simpy.utils", "count_symbols")(o[0]), "transforms": lambda o, a: transforms_of(o[0]), "table": lambda o, a: api("simpy.integral_table", "check_integral_table")(o[0], X.symbols("x")),
    "remove_const": lambda o, a: api("simpy.expr", "remove_const_factor")(o[0]), "children": lambda o, a: list(o[0].children()),
    # containers given to the library
    "subs_dict": lambda o, a: dict_subs(o), "sum_list": lambda o, a: listed(X.Sum, o), "prod_list": lambda o, a: listed(X.Prod, o),
    "subs_plain": lambda o, a: plain_dict(o, "subs"), "evalf_plain": lambda o, a: plain_dict(o, "evalf"), "sum_plain": lambda o, a: plain_list(X.Sum, o), "prod_plain": lambda o, a: plain_list(X.Prod, o),
    "arrays": lambda o, a: arrays(o), "class_lists": lambda o, a: lists_of_classes(o),
}


def execute(step, vals):
    """the value of a step, whose arguments are the values of earlier steps"""
    if step[0] == "new":
        try:
            v = build(step[1])
        except TooBig:
            raise
        except Exception as ex:
            return Raised(ex)
        return v if isinstance(v, X.Expr) else X.Const(v)
    try:
        return OPS[step[1]]([vals[i] for i in step[2]], step[3])
    except (TooBig, Skip):
        raise
    except Exception as ex:
        return Raised(ex)


def plain(v):
    return (v.value, v.ok) if isinstance(v, Checked) else (v, True)


def is_object(v):
    return isinstance(v, X.Expr) and build_size(v) <= MAXS


def fresh_results(steps):
    """every step from scratch, last step first"""
    out = [None] * len(steps)
    for k in reversed(range(len(steps))):
        memo = {}
        PATTERNS.clear()

        def value(i):
            if i not in memo:
                s = steps[i]
                memo[i] = plain(execute(s, {j: value(j) for j in s[2]} if s[0] == "op" else {}))[0]
            return memo[i]
        out[k] = json.dumps(obs(value(k)))
    return out


class Zygote:
    """a process in which nothing was computed; it forks a new process for each session"""
    def __init__(self, limit):
        a, b = os.pipe()
        c, d = os.pipe()
        self.file = tempfile.TemporaryFile()      # a result is passed on only when its process has ended well
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            self.serve(os.fdopen(a), d, limit)
            os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, "w"), os.fdopen(c)

    def serve(self, inp, out, limit):
        for line in inp:
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGVTALRM, signal.SIG_DFL)      # ends the process
                signal.setitimer(signal.ITIMER_VIRTUAL, limit)
                CLOCK[0] = "ticks"
                try:
                    res = fresh_results(json.loads(line))
                except BaseException as ex:
                    res = type(ex).__name__
                data = (json.dumps(res) + "\n").encode()
                while data:
                    data = data[os.write(self.file.fileno(), data):]
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            fd = self.file.fileno()
            data = os.pread(fd, os.fstat(fd).st_size, 0) if status == 0 else b'"limit"\n'
            os.ftruncate(fd, 0)
            os.lseek(fd, 0, os.SEEK_SET)
            while data:
                data = data[os.write(out, data):]

    def results(self, steps):
        self.w.write(json.dumps(steps) + "\n")
        self.w.flush()
        return json.loads(self.r.readline())


zygote = None


def start(limit):
    global zygote
    zygote = Zygote(limit)


@mode
def m_sess(job, rec):
    CLOCK[0] = "ticks"
    try:
        run(job, rec)
    finally:
        CLOCK[0] = 1.0


def run(job, rec):
    table, ids = [], {}

    def intern(s):
        if s not in ids:
            ids[s] = len(table) + 1
            table.append(s)
        return ids[s]

    vals, steps, objs, events = {}, [], [], []
    PATTERNS.clear()
    for st in job["steps"]:
        if st[0] == "again":
            k = (st[1] - 1) % len(steps)
            step = steps[k]
            if step[0] == "new":
                continue
        elif st[0] == "new":
            step = ["new", st[1]]
        else:
            if not objs:
                continue
            step = ["op", st[1], [objs[(i - 1) % len(objs)] for i in st[2]], st[3]]
        try:
            v, ok = plain(execute(step, vals))
        except Skip:      # something that is not part of the library any more
            continue
        n = len(steps)
        steps.append(step)
        vals[n] = v
        res = intern(json.dumps(obs(v)))
        kept = is_object(v)
        if kept:
            objs.append(n)
        events.append({"op": step[0] if step[0] == "new" else step[1], "args": [i + 1 for i in step[2]] if step[0] == "op" else [],
                       "par": json.dumps(step[3]) if step[0] == "op" else json.dumps(step[1]), "res": res, "kept": kept, "containers": ok,
                       "heap": [intern(json.dumps(obs(vals[i]))) for i in objs]})
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)      # no time limit in the middle of a message
    fresh = zygote.results(steps)
    if isinstance(fresh, str):
        rec({"e": "meta", "what": "fresh process: " + fresh})
        return
    for ev, f in zip(events, fresh):
        ev["fresh"] = intern(f)
    rec({"e": "sess", "steps": events, "objs": [o + 1 for o in objs], "table": [s[:300] for s in table]})
