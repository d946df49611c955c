"""Executes programs (see spec/Gen.tla) with the library's public constructors."""
from fractions import Fraction

import simpy.expr as X
from tree import FNS, tree

LEAVES = {"sym", "int", "frac", "flt", "pi", "e", "inf", "pint", "pfrac", "pflt", "bigq", "any"}
MAXSIZE = 250


class TooBig(Exception):
    pass


class Abort(Exception):
    """The program cannot be continued (an operation raised; it has been recorded)."""


def leaf(p):
    k = p[0]
    if k == "sym":
        return X.symbols(p[1])
    if k == "int":
        return X.Rat(p[1])
    if k == "frac":
        return X.Rat(Fraction(p[1], p[2]))
    if k == "flt":
        return X.Float(float(p[1]))
    if k == "pi":
        return X.pi
    if k == "e":
        return X.e
    if k == "inf":
        return X.inf
    if k == "pint":
        return int(p[1])
    if k == "pfrac":
        return Fraction(p[1], p[2])
    if k == "pflt":
        return float(p[1])
    if k == "bigq":
        return X.Rat(Fraction(int(p[1]), int(p[2])))
    if k == "any":
        from simpy.regex import Any_
        return Any_(p[1])
    raise KeyError(k)


def otree(v):
    """tree of an operand; plain Python numbers count as the numbers they are"""
    if isinstance(v, bool):
        return tree(v)
    if isinstance(v, float):
        return ["flt", repr(v)] if v == v and abs(v) != float("inf") else ["nan"]
    if isinstance(v, (int, Fraction)):
        return tree(X.Rat(Fraction(v)))
    return tree(v)


def apply(op, a, p):
    if op == "add":
        return a[0] + a[1]
    if op == "sub":
        return a[0] - a[1]
    if op == "mul":
        return a[0] * a[1]
    if op == "div":
        return a[0] / a[1]
    if op == "pow":
        return a[0] ** a[1]
    if op == "neg":
        return -a[0]
    if op == "sqrt":
        return X.sqrt(a[0])
    if op == "sum":
        return X.Sum(list(a))
    if op == "prod":
        return X.Prod(list(a))
    if op == "fn":
        return FNS[p[1]](a[0])
    if op == "log":
        return X.log(*a)
    if op == "expand":
        return a[0].expand() if a[0].expandable() else a[0]
    if op == "floordiv":
        return a[0] // a[1]
    if op == "mod":
        return a[0] % a[1]
    if op == "diff":
        return X.diff(a[0], a[1])
    if op == "abs":
        return abs(a[0]) if isinstance(a[0], X.Expr) else X.Abs(a[0])
    raise KeyError(op)


def exc_tree(ex):
    return ["exc", type(ex).__name__, str(ex)[:200]]


def size(t):
    """number of nodes, counted through children()"""
    n, stack = 0, [t]
    while stack:
        u = stack.pop()
        n += 1
        if n > 4 * MAXSIZE:
            break
        stack.extend(u.children())
    return n


def build(p, rec=None):
    """Runs the program p bottom-up; rec(event) is called for every operation."""
    op = p[0]
    if op in LEAVES:
        return leaf(p)
    kids = p[2:] if op == "fn" else p[1:]
    args = [build(q, rec) for q in kids]
    if rec is not None and op not in ("sum", "prod") and all(not isinstance(v, X.Expr) for v in args):
        args[0] = X.Const(args[0])
    if rec is None:
        if op not in ("sum", "prod", "fn", "log", "abs") and not any(isinstance(v, X.Expr) for v in args):
            args[0] = X.Const(args[0])
        r = apply(op, args, p)
    else:
        ev = {"e": "op", "op": op if op != "fn" else p[1], "in": [otree(v) for v in args]}
        try:
            r = apply(op, args, p)
        except (TooBig, KeyboardInterrupt):
            raise
        except BaseException as ex:
            if type(ex).__name__ == "CpuLimit":
                raise
            ev["out"] = exc_tree(ex)
            rec(ev)
            raise Abort()
        ev["out"] = otree(r)
        rec(ev)
    if isinstance(r, X.Expr) and size(r) > MAXSIZE:
        raise TooBig()
    return r
