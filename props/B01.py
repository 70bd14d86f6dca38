from common import *

SRC = 'src/shared/Buffer.cc'
SRCS = [SRC]
MAXMSG = 1 << 32


def lazy_none(E, st, off, n, isptr):
    return None


def le(arr, i, n):
    return z3.Concat(*[bv(arr.read(add64(i, k)), 8) for k in reversed(range(n))])


def mk_write(E, st, n, name='buf'):
    W = new_object(E, st, 'WriteBuffer', 'writeBuffer')
    a = FArr.base(8, name)
    seq_put(E, st, W.p('m_buf'), new_seq(E, st, 'char', n, {0: a}, False, name))
    return W, a


def mk_read(E, st, n, off, farr=None):
    R = new_object(E, st, 'ReadBuffer', 'readBuffer')
    a = farr if farr is not None else FArr.base(8, 'msg')
    seq_put(E, st, R.p('m_buf'), new_seq(E, st, 'char', n, {0: a}, False, 'msg'))
    R.set(st, 'm_off', off)
    return R, a


def bytes_of(E, st, V):
    q = V.seq(st, 'm_buf')
    return q, farrs_of(E, st, q)[0]


def alloc_contract(E, limit):
    """a string of up to `limit` units can be made; a longer one may be refused by the library"""
    for i, (pat, fn, lab) in enumerate(E.handlers):
        if fn is h_str:
            def h(E, st, args, ci, fn=fn):
                m = re.search(r'w?string::(resize|reserve|assign|append|w?string|basic_string)\(', ci.dn)
                if not m:
                    return fn(E, st, args, ci)
                n = None
                if m.group(1) in ('resize', 'reserve') and len(args) > 1:
                    n = args[1]
                elif ci.dn.find('(unsigned long long') >= 0 and len(args) > 2:
                    n = args[1]
                if n is None or isinstance(n, int):
                    return fn(E, st, args, ci)
                out = []
                for s, ok in E.fork(st, z3.ULE(bv(n, 64), bv(limit, 64))):
                    if ok:
                        out.append((s, Ret(fn(E, s, args, ci))))
                    else:
                        out.append((s, h_throw_std('St12length_error')(E, s, args, ci)))
                return Outs(out)
            E.handlers[i] = (pat, h, 'libstdc++ std::basic_string (may refuse a length above any existing message)')


def tags(ctx):
    """the type tags, from the real encoders"""
    t = {}
    for nm, pat, args in (('i32', r'^WriteBuffer::putInt32\(', [0]), ('i64', r'^WriteBuffer::putInt64\(', [0]), ('str', r'^WriteBuffer::putWString\(wchar_t const\*, unsigned long long\)', None)):
        E = ctx.mk([SRC])
        st = State()
        W = new_object(E, st, 'WriteBuffer', 'w')
        seq_put(E, st, W.p('m_buf'), new_seq(E, st, 'char', 0, None, False, 'w'))
        if args is None:
            args = [E.new_arr(st, 2, {0: 2}, 1, 'empty'), 0]
        for s, o in E.exec_fn(st, E.find_fn(pat), [W.ptr] + args):
            q, a = bytes_of(E, s, W)
            b = a.read(0)
            b = norm(z3.simplify(b), 8) if is_sym(b) else b
            if not isinstance(b, int):
                raise Unsupported('tag of ' + nm)
            t[nm] = b
    E.oblige(st, len(set(t.values())) == 3, 'lemma', 'the three kinds of value have different tags')
    return t


def new_bytes(E, s, W, old, n, what):
    """frame: everything written before is still there"""
    q, a = bytes_of(E, s, W)
    k = z3.BitVec('k', 64)
    E.oblige(s, z3.Implies(z3.ULT(k, n), bv(a.read(k), 8) == bv(old.read(k), 8)), 'frame', what + ' leaves the earlier part of the message alone')
    return q, a


def put_common(ctx, pat, label, nv, width, tag):
    T = tags(ctx)
    E = ctx.mk([SRC])
    st = State()
    n = z3.BitVec('n', 64)
    v = z3.BitVec('v', width)
    E.inputs.update(n=n, v=v)
    st.assume(z3.ULE(n, MAXMSG))
    W, old = mk_write(E, st, n)
    for s, o in E.exec_fn(st, E.find_fn(pat), [W.ptr, v]):
        q, a = new_bytes(E, s, W, old, n, label)
        E.oblige(s, bv(q.len, 64) == n + 1 + width // 8, 'postcondition', label + ' appends a tag and the value')
        E.oblige(s, bv(a.read(n), 8) == T[tag], 'postcondition', label + ' tag')
        E.oblige(s, le(a, n + 1, width // 8) == v, 'postcondition', label + ' value, low byte first')


def unit_put(ctx):
    put_common(ctx, r'^WriteBuffer::putInt32\(', 'putInt32', 4, 32, 'i32')
    put_common(ctx, r'^WriteBuffer::putInt64\(', 'putInt64', 8, 64, 'i64')


def unit_putstr(ctx):
    T = tags(ctx)
    E = ctx.mk([SRC])
    st = State()
    n, m = z3.BitVec('n', 64), z3.BitVec('len', 64)
    E.inputs.update(n=n, len=m)
    st.assume(z3.And(z3.ULE(n, MAXMSG), z3.ULE(m, MAXMSG)))
    W, old = mk_write(E, st, n)
    src = FArr.base(16, 'text')
    p = E.new_arr(st, 2, {0: 2}, m, 'text', {0: src})
    k = z3.BitVec('k2', 64)
    for s, o in E.exec_fn(st, E.find_fn(r'^WriteBuffer::putWString\(wchar_t const\*, unsigned long long\)'), [W.ptr, p, m]):
        q, a = new_bytes(E, s, W, old, n, 'putWString')
        E.oblige(s, bv(q.len, 64) == n + 9 + 2 * m, 'postcondition', 'putWString appends tag, length and text')
        E.oblige(s, bv(a.read(n), 8) == T['str'], 'postcondition', 'putWString tag')
        E.oblige(s, le(a, n + 1, 8) == m, 'postcondition', 'putWString length')
        E.oblige(s, z3.Implies(z3.ULT(k, m), le(a, n + 9 + 2 * k, 2) == bv(src.read(k), 16)), 'postcondition', 'putWString text')


def unit_replace(ctx):
    E = ctx.mk([SRC])
    st = State()
    n, pos, m = z3.BitVec('n', 64), z3.BitVec('pos', 64), z3.BitVec('len', 64)
    E.inputs.update(n=n, pos=pos, len=m)
    st.assume(z3.And(z3.ULE(n, MAXMSG), z3.ULT(pos, n), z3.ULE(m, n - pos), m != 0))
    W, old = mk_write(E, st, n)
    src = FArr.base(8, 'data')
    p = E.new_arr(st, 1, {0: 1}, m, 'data', {0: src})
    k = z3.BitVec('k', 64)
    for s, o in E.exec_fn(st, E.find_fn(r'^WriteBuffer::replaceRawData\('), [W.ptr, pos, p, m]):
        q, a = bytes_of(E, s, W)
        E.oblige(s, bv(q.len, 64) == n, 'postcondition', 'replaceRawData keeps the length')
        ins = z3.And(z3.UGE(k, pos), z3.ULT(k, pos + m))
        E.oblige(s, z3.Implies(z3.ULT(k, n), bv(a.read(k), 8) == z3.If(ins, bv(src.read(k - pos), 8), bv(old.read(k), 8))), 'postcondition', 'replaceRawData replaces exactly the range')


def is_decode_error(E, o):
    return isinstance(o, Throw) and 'DecodeError' in o.ti


def unit_get(ctx):
    T = tags(ctx)
    for pat, label, width, tag in ((r'^ReadBuffer::getInt32\(', 'getInt32', 32, 'i32'), (r'^ReadBuffer::getInt64\(', 'getInt64', 64, 'i64')):
        E = ctx.mk([SRC])
        st = State()
        n, off = z3.BitVec('n', 64), z3.BitVec('off', 64)
        E.inputs.update(n=n, off=off)
        st.assume(z3.And(z3.ULE(n, MAXMSG), z3.ULE(off, n)))
        R, a = mk_read(E, st, n, off)
        good = z3.And(z3.UGE(n - off, 1 + width // 8), bv(a.read(off), 8) == T[tag])
        E.inputs['tag'] = bv(a.read(off), 8)
        for s, o in E.exec_fn(st, E.find_fn(pat), [R.ptr]):
            noff = bv(R.get(s, 'm_off'), 64)
            if isinstance(o, Ret):
                E.oblige(s, good, 'postcondition', label + ' succeeds only on a complete value of its type')
                E.oblige(s, bv(o.v, width) == le(a, off + 1, width // 8), 'postcondition', label + ' returns the value')
                E.oblige(s, noff == off + 1 + width // 8, 'postcondition', label + ' uses up exactly the value')
            else:
                E.oblige(s, is_decode_error(E, o), 'exception', label + ' fails only with a decoding error')
                E.oblige(s, z3.Not(good), 'postcondition', label + ' accepts every complete value of its type')
                E.oblige(s, z3.ULE(noff, n), 'invariant', label + ' keeps the read position in the message')


def unit_getstr(ctx):
    T = tags(ctx)
    E = ctx.mk([SRC])
    st = State()
    n, off = z3.BitVec('n', 64), z3.BitVec('off', 64)
    st.assume(z3.And(z3.ULE(n, MAXMSG), z3.ULE(off, n)))
    R, a = mk_read(E, st, n, off)
    L = le(a, off + 1, 8)
    E.inputs.update(n=n, off=off, tag=bv(a.read(off), 8), L=L)
    alloc_contract(E, n)
    good = z3.And(z3.UGE(n - off, 9), bv(a.read(off), 8) == T['str'], z3.ULE(L, z3.LShR(n - off - 9, 1)))
    ret = E.new_cells(st, 32, 'result')
    k = z3.BitVec('k', 64)
    for s, o in E.exec_fn(st, E.find_fn(r'^ReadBuffer::getWString'), [ret, R.ptr]):
        noff = bv(R.get(s, 'm_off'), 64)
        if isinstance(o, Ret):
            E.oblige(s, good, 'postcondition', 'getWString succeeds only on a complete string')
            q = seq_get(E, s, ret)
            f = farrs_of(E, s, q)[0]
            E.oblige(s, bv(q.len, 64) == L, 'postcondition', 'getWString length')
            E.oblige(s, z3.Implies(z3.ULT(k, L), bv(f.read(k), 16) == le(a, off + 9 + 2 * k, 2)), 'postcondition', 'getWString text')
            E.oblige(s, noff == off + 9 + 2 * L, 'postcondition', 'getWString uses up exactly the string')
        else:
            E.oblige(s, is_decode_error(E, o), 'exception', 'getWString fails only with a decoding error')
            E.oblige(s, z3.Not(good), 'postcondition', 'getWString accepts every complete string')
            E.oblige(s, z3.ULE(noff, n), 'invariant', 'getWString keeps the read position in the message')


def unit_raw(ctx):
    E = ctx.mk([SRC])
    st = State()
    n, off, m = z3.BitVec('n', 64), z3.BitVec('off', 64), z3.BitVec('len', 64)
    E.inputs.update(n=n, off=off, len=m)
    st.assume(z3.And(z3.ULE(n, MAXMSG), z3.ULE(off, n), m != 0))
    R, a = mk_read(E, st, n, off)
    # the destination is only guaranteed to hold what the message can deliver
    st.assume(z3.Or(z3.ULE(m, 1 << 34), True))
    d = E.new_arr(st, 1, {0: 1}, z3.If(z3.ULE(m, n), m, n + 1), 'out')
    k = z3.BitVec('k', 64)
    for s, o in E.exec_fn(st, E.find_fn(r'^ReadBuffer::getRawData\('), [R.ptr, d, m]):
        noff = bv(R.get(s, 'm_off'), 64)
        if isinstance(o, Ret):
            E.oblige(s, z3.ULE(m, n - off), 'postcondition', 'getRawData succeeds only when that many bytes remain')
            f = s.mem[d.oid].fields[0][1]
            E.oblige(s, z3.Implies(z3.ULT(k, m), bv(f.read(k), 8) == bv(a.read(off + k), 8)), 'postcondition', 'getRawData delivers the bytes in order')
            E.oblige(s, noff == off + m, 'postcondition', 'getRawData uses up exactly the bytes')
        else:
            E.oblige(s, is_decode_error(E, o), 'exception', 'getRawData fails only with a decoding error')
            E.oblige(s, z3.UGT(m, n - off), 'postcondition', 'getRawData delivers whenever enough bytes remain')
            E.oblige(s, noff == off, 'frame', 'getRawData leaves the position alone when it fails')


def unit_eof(ctx):
    E = ctx.mk([SRC])
    st = State()
    n, off = z3.BitVec('n', 64), z3.BitVec('off', 64)
    E.inputs.update(n=n, off=off)
    st.assume(z3.And(z3.ULE(n, MAXMSG), z3.ULE(off, n)))
    R, a = mk_read(E, st, n, off)
    for s, o in E.exec_fn(st, E.find_fn(r'^ReadBuffer::assertEof\('), [R.ptr]):
        if isinstance(o, Ret):
            E.oblige(s, off == n, 'postcondition', 'assertEof accepts only a used-up message')
        else:
            E.oblige(s, is_decode_error(E, o), 'exception', 'assertEof fails only with a decoding error')
            E.oblige(s, off != n, 'postcondition', 'assertEof accepts every used-up message')


UNITS = [('putInt', unit_put), ('putWString', unit_putstr), ('replaceRawData', unit_replace), ('getInt', unit_get), ('getWString', unit_getstr), ('getRawData', unit_raw), ('assertEof', unit_eof)]
HARNESS = ['h_b01']
RULE = 'harness: random value sequences encoded and decoded, and truncated, corrupted or retyped messages decoded and compared with an independent decoder; distinct = messages by hash'
