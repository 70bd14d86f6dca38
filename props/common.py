"""Specification vocabulary shared by the property modules."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'irv'))
import z3
from lib import *
from std import *

TU = os.path.join(VERIF, 'irv', 'tu')


def tu(name):
    """a translation unit of ours that only includes a /repo header"""
    TUS['tu:' + name] = (os.path.join(TU, name), FLAGS + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src/include')])
    return 'tu:' + name


def is_scalar(c):
    return z3.And(z3.ULE(c, 0x10FFFF), z3.Not(z3.And(z3.UGE(c, 0xD800), z3.ULE(c, 0xDFFF))))


def utf8_len(c):
    """length of the UTF-8 form of scalar value c (RFC 3629), 0 for non-scalars"""
    B = lambda v: z3.BitVecVal(v, 32)
    return z3.If(z3.Not(is_scalar(c)), B(0), z3.If(z3.ULE(c, 0x7F), B(1), z3.If(z3.ULE(c, 0x7FF), B(2), z3.If(z3.ULE(c, 0xFFFF), B(3), B(4)))))


def utf8_bytes(c):
    """[b0..b3]: RFC 3629 table; bytes past the length are unconstrained"""
    def ex(hi, lo, w):
        return z3.Extract(hi, lo, c)
    l = utf8_len(c)
    b = []
    one = [ex(7, 0, 8)]
    two = [z3.Concat(z3.BitVecVal(6, 3), ex(10, 6, 5)), z3.Concat(z3.BitVecVal(2, 2), ex(5, 0, 6))]
    three = [z3.Concat(z3.BitVecVal(14, 4), ex(15, 12, 4)), z3.Concat(z3.BitVecVal(2, 2), ex(11, 6, 6)), z3.Concat(z3.BitVecVal(2, 2), ex(5, 0, 6))]
    four = [z3.Concat(z3.BitVecVal(30, 5), ex(20, 18, 3)), z3.Concat(z3.BitVecVal(2, 2), ex(17, 12, 6)), z3.Concat(z3.BitVecVal(2, 2), ex(11, 6, 6)), z3.Concat(z3.BitVecVal(2, 2), ex(5, 0, 6))]
    z = z3.BitVecVal(0, 8)
    for i in range(4):
        v = four[i]
        if i < 3:
            v = z3.If(l == 3, three[i], v)
        if i < 2:
            v = z3.If(l == 2, two[i], v)
        if i < 1:
            v = z3.If(l == 1, one[i], v)
        b.append(v)
    return b


def hv(v):
    """an opaque handle (loaded as a pointer without object) as a 64-bit term"""
    if isinstance(v, Ptr):
        if v.oid != 0:
            raise Unsupported('a handle that is a pointer to %s' % v.oid)
        v = v.off
    return bv(v, 64)


def g(st, **kw):
    st.ghost = dict(st.ghost)
    st.ghost.update(kw)


def b8(v):
    return bv(v, 8) != 0


w64 = lambda v: z3.BitVecVal(v, 64)
w32 = lambda v: z3.BitVecVal(v, 32)
