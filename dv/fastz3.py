"""Cheaper expression building through the z3 python bindings (no change in meaning): the error check is
skipped for calls that cannot fail, and comparisons of integers do not go through coercion."""
import z3
from z3 import z3core

_no = lambda ctx: None
for _n in ('Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_is_eq_ast', 'Z3_get_ast_kind', 'Z3_get_sort_kind', 'Z3_mk_bool_sort',
           'Z3_mk_int_sort', 'Z3_solver_push', 'Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_is_eq_sort'):
    f = getattr(z3core, _n, None)
    if f is not None and f.__defaults__:
        f.__defaults__[0].Check = _no

_ints = {}


def iv(k):
    v = _ints.get(k)
    if v is None:
        v = _ints[k] = z3.IntVal(k)
    return v


def _cmp(name, old):
    mk = getattr(z3core, name)

    def op(a, b):
        t = type(b)
        if t is int:
            b = iv(b)
        elif t is not z3.ArithRef and t is not z3.IntNumRef:
            return old(a, b)
        c = a.ctx
        return z3.BoolRef(mk(c.ctx, a.ast, b.ast), c)
    return op


def _nary(name, old):
    mk = getattr(z3core, name)

    def op(a, b):
        t = type(b)
        if t is int:
            b = iv(b)
        elif t is not z3.ArithRef and t is not z3.IntNumRef:
            return old(a, b)
        c = a.ctx
        arr = (z3.Ast * 2)()
        arr[0] = a.ast
        arr[1] = b.ast
        return z3.ArithRef(mk(c.ctx, 2, arr), c)
    return op


A = z3.ArithRef
A.__le__ = _cmp('Z3_mk_le', A.__le__)
A.__lt__ = _cmp('Z3_mk_lt', A.__lt__)
A.__ge__ = _cmp('Z3_mk_ge', A.__ge__)
A.__gt__ = _cmp('Z3_mk_gt', A.__gt__)
A.__eq__ = _cmp('Z3_mk_eq', z3.ExprRef.__eq__)
A.__hash__ = z3.AstRef.__hash__
A.__add__ = _nary('Z3_mk_add', A.__add__)
A.__sub__ = _nary('Z3_mk_sub', A.__sub__)


def Not(a):
    c = a.ctx
    return z3.BoolRef(z3core.Z3_mk_not(c.ctx, a.ast), c)


def Implies(a, b):
    c = a.ctx
    return z3.BoolRef(z3core.Z3_mk_implies(c.ctx, a.ast, b.ast), c)


def Or(xs):
    c = xs[0].ctx
    n = len(xs)
    arr = (z3.Ast * n)()
    for i, x in enumerate(xs):
        arr[i] = x.ast
    return z3.BoolRef(z3core.Z3_mk_or(c.ctx, n, arr), c)
