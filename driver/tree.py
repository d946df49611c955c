"""Observation of simpy expressions as plain trees (see spec/Terms.tla for the encoding)."""
import sys
from fractions import Fraction

import simpy.expr as X

FNS = {"sin": X.sin, "cos": X.cos, "tan": X.tan, "sec": X.sec, "csc": X.csc, "cot": X.cot,
       "asin": X.asin, "acos": X.acos, "atan": X.atan}
CLS2FN = {c: n for n, c in FNS.items()}
LIM = 2**31
INF = float("inf")


def num_tree(v):
    n, d = v.numerator, v.denominator
    if -LIM < n < LIM and d < LIM:
        return ["rat", int(n), int(d)]
    return ["big", digits(n), digits(d)]


def digits(n):
    """Also of integers that Python refuses to print."""
    try:
        return str(n)
    except ValueError:
        old = sys.get_int_max_str_digits()
        sys.set_int_max_str_digits(0)
        try:
            return str(n)
        finally:
            sys.set_int_max_str_digits(old)


def tree(t):
    """The structure of an expression, as the library's own classes show it."""
    try:
        return tree_(t)
    except RecursionError:
        return ["other", "cyclic or too deep"]


def tree_(t):
    c = t.__class__
    if c is X.Rat:
        return num_tree(t.value)
    if c is X.Symbol:
        return ["sym", t.name]
    if c is X.Sum:
        return ["sum"] + [tree_(u) for u in t.terms]
    if c is X.Prod:
        return ["prod"] + [tree_(u) for u in t.terms]
    if c is X.Power:
        return ["pow", tree_(t.base), tree_(t.exponent)]
    if c in CLS2FN:
        return ["fn", CLS2FN[c], tree_(t.inner)]
    if c is X.log:
        return ["log", tree_(t.inner), tree_(t.base)]
    if c is X.Abs:
        return ["abs", tree_(t.inner)]
    if c is X.Pi:
        return ["pi"]
    if c is X.E:
        return ["e"]
    if c is X.Float:
        v = float(t.value)
        return ["nan"] if v != v else ["inf"] if v == INF else ["ninf"] if v == -INF else ["flt", repr(v)]
    if c is X.Infinity:
        return ["inf"]
    if c is X.NegInfinity:
        return ["ninf"]
    if c is X.NaN:
        return ["nan"]
    if c.__name__ == "Any_":
        return ["any", t.key]
    if isinstance(t, (bool, type(None), int, float, Fraction, str)):
        return ["other", repr(t)]
    return ["other", "%s %r" % (c.__name__, t)]


def size(tr):
    return 1 + sum(size(u) for u in tr[1:] if isinstance(u, list))
