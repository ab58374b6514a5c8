"""Queries on the gated event trace of an analysed call."""
from . import terms as T


def cond(trace, pred):
    """condition under which an entry satisfying pred is reached"""
    r = False
    for e in trace:
        if e[0] == "ite":
            a, b = cond(e[2], pred), cond(e[3], pred)
            x = T.OR(T.AND(e[1], a), T.AND(T.NOT(e[1]), b))
        else:
            x = bool(pred(e))
        r = T.OR(r, x)
    return r


def cut(trace):
    return cond(trace, lambda e: e[0] == "cut")


def panic(trace):
    return cond(trace, lambda e: e[0] == "panic")


def events(trace, g=True):
    """(guard, entry) of every event in order"""
    for e in trace:
        if e[0] == "ite":
            yield from events(e[2], T.AND(g, e[1]))
            yield from events(e[3], T.AND(g, T.NOT(e[1])))
        else:
            yield g, e
