"""Vocabulary for the control-pipe protocol: typed messages as both ends see them.

A WriteBuffer is modelled by the sequence of typed values put into it, a
ReadBuffer by the sequence of typed reads made from it (the encodings
themselves are property B01).  The tables below are the protocol; each end is
checked against them, so together they carry every value unchanged."""
from common import *
import re as _re

WB_NOTE = 'WriteBuffer::put*: appends one typed value (property B01)'
RB_NOTE = 'ReadBuffer::get*: the next typed value, or DecodeError (property B01)'
def padd(p, n):
    return Ptr(p.oid, p.off + n)


k = z3.BitVec('k', 64)

PROTO = {
    'StartProcess': ['i32', 'i64', 'i32', 'i32', 'w', 'w', 'w', 'w', 'w'],   # type, flags, want process, want thread, program, cmdline, cwd, env, desktop
    'SetSize': ['i32', 'i32', 'i32'],
    'GetConsoleProcessList': ['i32'],
}


TU_MSG = tu('agentmsg.cc')


def enums(E):
    """enumerators of the protocol, from the debug information"""
    r = {}
    for m in [E.ctx.module(TU_MSG)]:
        for n in ('StartProcess', 'SetSize', 'GetConsoleProcessList', 'CreateProcessFailed', 'ProcessCreated'):
            for x in _re.findall(r'!DIEnumerator\(name: "%s", value: (-?\d+)' % n, m.text()):
                if r.setdefault(n, int(x)) != int(x):
                    raise Unsupported('enumerator %s has two values' % n)
    if len(r) != 5:
        raise Unsupported('protocol enumerators not found')
    return r


def mkey(p):
    if not isinstance(p.off, int):
        raise Unsupported('message at unknown address')
    return 'msg:%s:%s' % (p.oid, p.off)


def items(st, p):
    return st.ghost.get(mkey(p), ())


def put(E, st, p, item):
    g(st, **{mkey(p): items(st, p) + (item,)})


def install_write(E, on_i32=None):
    """WriteBuffer as a list of typed values"""
    def ctor(E, s, a, ci):
        g(s, **{mkey(a[0]): ()})

    def move(E, s, a, ci):
        g(s, **{mkey(a[0]): items(s, a[1]), mkey(a[1]): ()})

    def p32(E, s, a, ci):
        if on_i32 is not None and on_i32(E, s, a[0], bv(a[1], 32)):
            return None
        put(E, s, a[0], ('i32', bv(a[1], 32)))

    def p64(E, s, a, ci):
        put(E, s, a[0], ('i64', bv(a[1], 64)))

    def pw(E, s, a, ci):
        n = bv(a[2], 64)
        src, i0 = src_range(E, s, a[1], a[2], 2)
        put(E, s, a[0], ('w', n, src, i0))

    def raw(E, s, a, ci):
        if a[2] != 8:
            raise Unsupported('raw value of %s bytes' % (a[2],))
        put(E, s, a[0], ('raw64', bv(E.load_raw(s, a[1], 8, None), 64)))
    for pat, fn in ((r'^WriteBuffer::WriteBuffer\(\)', ctor), (r'^WriteBuffer::(WriteBuffer|operator=)\(WriteBuffer&&\)', move), (r'^WriteBuffer::~WriteBuffer', lambda E, s, a, ci: None),
                    (r'^WriteBuffer::putInt32\(', p32), (r'^WriteBuffer::putInt64\(', p64),
                    (r'^WriteBuffer::putWString\(wchar_t const\*, unsigned long long\)', pw), (r'^WriteBuffer::putRawData\(', raw)):
        handler(E, pat, fn, WB_NOTE)


def decode_error(E, s):
    return Throw('@_ZTIN10ReadBuffer11DecodeErrorE', E.new_cells(s, 16, 'DecodeError'))


def install_read(E, fail=True):
    """ReadBuffer as a list of typed reads, recorded in the ghost 'rd'"""
    def rec(s, it):
        g(s, rd=s.ghost['rd'] + (it,))

    def may_fail(fn):
        def f(E, s, a, ci):
            out = []
            if fail:
                b = s.copy()
                g(b, bad=True)
                out.append((b, decode_error(E, b)))
            out.append((s, Ret(fn(E, s, a, ci))))
            return Outs(out)
        return f

    def g32(E, s, a, ci):
        v = fresh('msg.i32', 32)
        rec(s, ('i32', v))
        return v

    def g64(E, s, a, ci):
        v = fresh('msg.i64', 64)
        rec(s, ('i64', v))
        return v

    def gw(E, s, a, ci):
        n = fresh('msg.len', 64)
        s.assume(z3.ULE(n, 1 << 32))
        i = len(s.ghost['rd'])
        f = FArr.base(16, 'msg.str%d' % i)
        q = new_seq(E, s, 'wchar_t', n, {0: f.set(n, 0)}, isstr=True, name='msgstr')
        seq_put(E, s, a[0], q)
        rec(s, ('w', n, f, q.oid))
        return None

    def eof(E, s, a, ci):
        rec(s, ('eof',))
        return None
    for pat, fn in ((r'^ReadBuffer::getInt32\(', g32), (r'^ReadBuffer::getInt64\(', g64), (r'^ReadBuffer::getWString\(', gw), (r'^ReadBuffer::assertEof\(', eof)):
        handler(E, pat, may_fail(fn), RB_NOTE)


def kinds(l):
    return [x[0] for x in l]


def ob_kinds(E, s, l, want, what):
    E.oblige(s, kinds(l) == list(want), 'postcondition', what)
    return kinds(l) == list(want)


def wstr_is(E, s, it, farr, n):
    """item it is the string farr[0..n)"""
    return z3.And(it[1] == n, z3.Implies(z3.ULT(k, n), bv(it[2].read(add64(it[3], k)), 16) == bv(farr.read(k), 16)))


def memcmp(E, s, a, ci):
    """equal exactly if all elements are; the equality is used at the arbitrary index k"""
    esz = 2 if 'wmem' in ci.dn else 1
    n = bv(a[2], 64)
    f, i = src_range(E, s, a[0], a[2], esz)
    h, j = src_range(E, s, a[1], a[2], esz)
    r, d = fresh('cmp', 32), fresh('diff', 64)
    at = lambda q: bv(f.read(add64(i, q)), 8 * esz) == bv(h.read(add64(j, q)), 8 * esz)
    s.assume(z3.Implies(r == 0, z3.Implies(z3.ULT(k, n), at(k))))
    s.assume(z3.Implies(r != 0, z3.And(z3.ULT(d, n), z3.Not(at(d)))))
    return r
