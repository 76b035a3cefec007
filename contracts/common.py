"""Helpers shared by the sidecar contracts."""
import z3
from pyvc.contract import *
from runtimepy.primitives import base as _PB

NET, LITTLE, BIG = "!", "<", ">"


def base_cfg(cfg):
    """Hash identifiers are opaque fresh integers."""
    ident = getattr(_PB, "IDENT", None)
    if ident is not None:
        cfg.model(ident, lambda it, a, kw: it.c.sym("int", "ident", inp=False), "runtimepy.primitives.base:IDENT")


def holds(it, label, t):
    it.c.check(label, t)


def And(*a):
    return z3.And(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in a])


def sym_list(it, ty, name):
    """An arbitrary list of values of type ty."""
    return MList(seq=it.c.fresh(z3.SeqSort(ty.sort), name), ty=ty)


def tm(it, v, k=None):
    return it.term(v, k)


def same(it, a, b):
    return eqv(it, a, b)
