from common import *

PROPERTY = 'U01'


def unit_encode_utf8(ctx):
    E = ctx.mk([tu('unicode.cc')])
    f = E.find_fn(r'^encodeUtf8\(')
    st = State()
    code = z3.BitVec('code', 32)
    E.inputs['code'] = code
    out = E.new_arr(st, 1, {0: 1}, 4, 'out')
    init = st.mem[out.oid].fields[0][1]
    for s, o in E.exec_fn(st, f, [out, code]):
        n = bv(o.v, 32)
        a = s.mem[out.oid].fields[0][1]
        E.oblige(s, n == utf8_len(code), 'postcondition', 'encodeUtf8 returns the RFC 3629 length, 0 for non-scalars')
        sb = utf8_bytes(code)
        for i in range(4):
            E.oblige(s, z3.Or(z3.ULE(n, i), bv(a.read(i), 8) == sb[i]), 'postcondition', 'encodeUtf8 byte %d as in RFC 3629' % i)
            E.oblige(s, z3.Or(z3.UGT(n, i), bv(a.read(i), 8) == bv(init.read(i), 8)), 'frame', 'encodeUtf8 leaves byte %d past the length alone' % i)


def unit_encode_utf16(ctx):
    E = ctx.mk([tu('unicode.cc')])
    f = E.find_fn(r'^encodeUtf16\(')
    st = State()
    code = z3.BitVec('code', 32)
    E.inputs['code'] = code
    out = E.new_arr(st, 2, {0: 2}, 2, 'out')
    a = st.mem[out.oid].fields[0][1]
    i0, i1 = bv(a.read(0), 16), bv(a.read(1), 16)
    for s, o in E.exec_fn(st, f, [out, code]):
        n = bv(o.v, 32)
        a = s.mem[out.oid].fields[0][1]
        w = z3.If(z3.Not(is_scalar(code)), z3.BitVecVal(0, 32), z3.If(z3.ULE(code, 0xFFFF), z3.BitVecVal(1, 32), z3.BitVecVal(2, 32)))
        E.oblige(s, n == w, 'postcondition', 'encodeUtf16 length')
        r0, r1 = bv(a.read(0), 16), bv(a.read(1), 16)
        E.oblige(s, z3.Implies(n == 0, r0 == i0), 'frame', 'encodeUtf16 writes nothing for a code point it rejects')
        E.oblige(s, z3.Implies(z3.Or(n == 0, n == 1), r1 == i1), 'frame', 'encodeUtf16 writes no unit past the ones it reports')
        E.oblige(s, z3.Implies(n == 1, z3.ZeroExt(16, r0) == code), 'postcondition', 'encodeUtf16 BMP unit')
        dec = 0x10000 + ((z3.ZeroExt(16, r0) - 0xD800) * 0x400) + (z3.ZeroExt(16, r1) - 0xDC00)
        hi = z3.And(z3.UGE(r0, 0xD800), z3.ULE(r0, 0xDBFF))
        lo = z3.And(z3.UGE(r1, 0xDC00), z3.ULE(r1, 0xDFFF))
        E.oblige(s, z3.Implies(n == 2, z3.And(hi, lo, dec == code)), 'postcondition', 'encodeUtf16 surrogate pair denotes the code point')


def unit_charlen(ctx):
    E = ctx.mk([tu('unicode.cc')])
    f = E.find_fn(r'^utf8CharLength\(')
    st = State()
    b = z3.BitVec('byte', 8)
    E.inputs['byte'] = b
    for s, o in E.exec_fn(st, f, [b]):
        n = bv(o.v, 32)
        w = z3.BitVecVal
        spec = z3.If(z3.ULE(b, 0x7F), w(1, 32), z3.If(z3.ULE(b, 0xBF), w(0, 32), z3.If(z3.ULE(b, 0xDF), w(2, 32), z3.If(z3.ULE(b, 0xEF), w(3, 32), z3.If(z3.ULE(b, 0xF7), w(4, 32), w(0, 32))))))
        E.oblige(s, n == spec, 'postcondition', 'utf8CharLength by lead byte')


def spec_decode(bs):
    """value of the well-formed UTF-8 sequence starting at bs[0], else -1"""
    z = [z3.ZeroExt(24, x) for x in bs]
    cont = [z3.And(z3.UGE(x, 0x80), z3.ULE(x, 0xBF)) for x in bs]
    inv = z3.BitVecVal(0xFFFFFFFF, 32)
    c2 = (z[0] - 0xC0) * 64 + (z[1] - 0x80)
    c3 = (z[0] - 0xE0) * 4096 + (z[1] - 0x80) * 64 + (z[2] - 0x80)
    c4 = (z[0] - 0xF0) * 262144 + (z[1] - 0x80) * 4096 + (z[2] - 0x80) * 64 + (z[3] - 0x80)
    ok2 = z3.And(cont[1], z3.UGE(c2, 0x80))
    ok3 = z3.And(cont[1], cont[2], z3.UGE(c3, 0x800), z3.Or(z3.ULT(c3, 0xD800), z3.UGT(c3, 0xDFFF)))
    ok4 = z3.And(cont[1], cont[2], cont[3], z3.UGE(c4, 0x10000), z3.ULE(c4, 0x10FFFF))
    b0 = bs[0]
    return z3.If(z3.ULE(b0, 0x7F), z[0],
                 z3.If(z3.ULE(b0, 0xBF), inv,
                       z3.If(z3.ULE(b0, 0xDF), z3.If(ok2, c2, inv),
                             z3.If(z3.ULE(b0, 0xEF), z3.If(ok3, c3, inv),
                                   z3.If(z3.ULE(b0, 0xF7), z3.If(ok4, c4, inv), inv)))))


def unit_decode_utf8(ctx):
    E = ctx.mk([tu('unicode.cc')])
    f = E.find_fn(r'^decodeUtf8\(')
    st = State()
    # the buffer holds exactly as many bytes as the lead byte announces
    n = z3.BitVec('n', 64)
    src = E.new_arr(st, 1, {0: 1}, n, 'in')
    a = st.mem[src.oid].fields[0][1]
    bs = [bv(a.read(i), 8) for i in range(4)]
    for i in range(4):
        E.inputs['b%d' % i] = bs[i]
    b0 = bs[0]
    w = lambda v: z3.BitVecVal(v, 64)
    st.assume(n == z3.If(z3.ULE(b0, 0xBF), w(1), z3.If(z3.ULE(b0, 0xDF), w(2), z3.If(z3.ULE(b0, 0xEF), w(3), z3.If(z3.ULE(b0, 0xF7), w(4), w(1))))))
    for s, o in E.exec_fn(st, f, [src]):
        E.oblige(s, bv(o.v, 32) == spec_decode(bs), 'postcondition', 'decodeUtf8: well-formed value or -1 (overlong, surrogate, >10FFFF, bad continuation)')


def unit_surrogate(ctx):
    E = ctx.mk([tu('unicode.cc')])
    f = E.find_fn(r'^decodeSurrogatePair\(')
    st = State()
    h, l = z3.BitVec('hi', 16), z3.BitVec('lo', 16)
    E.inputs.update(hi=h, lo=l)
    st.assume(z3.And(z3.UGE(h, 0xD800), z3.ULE(h, 0xDBFF), z3.UGE(l, 0xDC00), z3.ULE(l, 0xDFFF)))
    for s, o in E.exec_fn(st, f, [h, l]):
        spec = z3.Concat(z3.BitVecVal(0, 12), z3.Extract(9, 0, h), z3.Extract(9, 0, l)) + 0x10000
        E.oblige(s, bv(o.v, 32) == spec, 'postcondition', 'decodeSurrogatePair: U+10000 plus twenty payload bits')
        E.oblige(s, is_scalar(bv(o.v, 32)), 'postcondition', 'decodeSurrogatePair yields a scalar value')


UNITS = [('encodeUtf8', unit_encode_utf8), ('encodeUtf16', unit_encode_utf16), ('utf8CharLength', unit_charlen),
         ('decodeUtf8', unit_decode_utf8), ('decodeSurrogatePair', unit_surrogate)]
HARNESS = ['h_u01']
SRCS = ['unicode.cc'] if False else []
RULE = 'harness: every code 0..0x11FFFF plus random 32-bit codes encoded; every 1-3 byte sequence and all continuation triples of 4-byte leads decoded; distinct = codes encoded'
