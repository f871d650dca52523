"""Thin constructors over the z3 C API (sorts are known here, so the generic
coercion and error checks of z3py are skipped for the hot operations)."""
import ctypes

import z3
from z3 import z3core



class _Lib:
    def __getattr__(self, n):  # the raw ctypes function behind z3core's wrapper
        return getattr(z3core, n).__defaults__[-1].f


_lib = _Lib()
_main = z3.main_ctx()
_c = _main.ref()
_Ast = z3.Ast
_A2 = _Ast * 2
ArithRef = z3.ArithRef
BoolRef = z3.BoolRef

_mk_add, _mk_mul, _mk_sub = _lib.Z3_mk_add, _lib.Z3_mk_mul, _lib.Z3_mk_sub
_mk_div, _mk_lt, _mk_le, _mk_eq = _lib.Z3_mk_div, _lib.Z3_mk_lt, _lib.Z3_mk_le, _lib.Z3_mk_eq
_mk_ite, _mk_and, _mk_or, _mk_not, _mk_neg = _lib.Z3_mk_ite, _lib.Z3_mk_and, _lib.Z3_mk_or, _lib.Z3_mk_not, _lib.Z3_mk_unary_minus


def add(a, b):
    return ArithRef(_mk_add(_c, 2, _A2(a.ast, b.ast)), _main)


def mul(a, b):
    return ArithRef(_mk_mul(_c, 2, _A2(a.ast, b.ast)), _main)


def sub(a, b):
    return ArithRef(_mk_sub(_c, 2, _A2(a.ast, b.ast)), _main)


def div(a, b):
    return ArithRef(_mk_div(_c, a.ast, b.ast), _main)


def neg(a):
    return ArithRef(_mk_neg(_c, a.ast), _main)


def lt(a, b):
    return BoolRef(_mk_lt(_c, a.ast, b.ast), _main)


def le(a, b):
    return BoolRef(_mk_le(_c, a.ast, b.ast), _main)


def eq(a, b):
    return BoolRef(_mk_eq(_c, a.ast, b.ast), _main)


def ite(c, a, b):
    return ArithRef(_mk_ite(_c, c.ast, a.ast, b.ast), _main)


def iteb(c, a, b):
    return BoolRef(_mk_ite(_c, c.ast, a.ast, b.ast), _main)


def and_(a, b):
    return BoolRef(_mk_and(_c, 2, _A2(a.ast, b.ast)), _main)


def or_(a, b):
    return BoolRef(_mk_or(_c, 2, _A2(a.ast, b.ast)), _main)


def not_(a):
    return BoolRef(_mk_not(_c, a.ast), _main)


def same(a, b):
    return a.ast.value == b.ast.value
