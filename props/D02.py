from common import *

TU_SU = tu('strutil.cc')
SRCS = [TU_SU]
K = z3.BitVec('K', 64)
BADALLOC = '@_ZTISt9bad_alloc'


def formatter(E, st, where, size):
    """C99 vsnprintf, and the Microsoft one that the comments speak of: T characters F[0..T) are the text"""
    F, T = FArr.base(8, 'text'), z3.BitVec('T', 64)
    st.assume(z3.ULE(T, 0x7FFFFFFF))
    st.assume(z3.Implies(z3.ULT(K, T), bv(F.read(K), 8) != 0))
    E.inputs.update(T=T, K=K)
    g(st, calls=0)

    def vs(E, s, a, ci):
        n = bv(a[1], 64)
        base = a[0]
        E.oblige(s, base.oid == where.oid and s.ghost['calls'] == 0, 'precondition', 'the text is made once, in the buffer given')
        src_range(E, s, base, n, 1)
        E.oblige(s, z3.And(bv(base.off, 64) == bv(where.off, 64), z3.ULE(n, size), z3.UGE(n, size)), 'precondition', 'all of the buffer, and no more')
        g(s, calls=1)
        out = []
        for kind in ('fits', 'c99', 'ms', 'error'):
            b = s.copy()
            ar = b.mem[base.oid].clone()
            w, f = ar.fields[0]
            junk = FArr.base(8, 'junk')
            if kind == 'fits':
                b.assume(z3.ULT(T, n))
                ar.fields[0] = (w, f.copy(base.off, T, F, w64(0)).set(add64(base.off, T), 0))
                r = z3.Extract(31, 0, T)
            elif kind == 'c99':
                b.assume(z3.UGE(T, n))
                ar.fields[0] = (w, f.copy(base.off, n - 1, F, w64(0)).set(add64(base.off, n - 1), 0))
                r = z3.Extract(31, 0, T)
            elif kind == 'ms':
                b.assume(z3.UGE(T, n))
                ar.fields[0] = (w, f.copy(base.off, n, F, w64(0)))
                r = z3.If(T == n, z3.Extract(31, 0, T), w32(0xFFFFFFFF))
            else:
                ar.fields[0] = (w, f.copy(base.off, n, junk, w64(0)))
                r = fresh('errorcode', 32)
                b.assume(r < 0)
            b.mem[base.oid] = ar
            g(b, kind=kind)
            out.append((b, Ret(r)))
        return Outs(out)
    handler(E, r'^_?_?(mingw_|ms_)?_?vsnprintf$', vs, 'C library vsnprintf: at most size characters are written; C99 or Microsoft results')
    handler(E, r'^llvm\.va_start', lambda E, s, a, ci: E.store_raw(s, a[0], Ptr(0, z3.BitVec('valist', 64)), 8), 'the argument list (read only by vsnprintf)')
    handler(E, r'^llvm\.va_(end|copy)', lambda E, s, a, ci: None, 'the argument list (read only by vsnprintf)')
    return F, T


def check_format(E, s, o, buf, n, F, T, before):
    if not isinstance(o, Ret):
        E.oblige(s, False, 'exception', 'no exception')
        return
    f = s.mem[buf.oid].fields[0][1]
    r = o.v
    E.oblige(s, s.ghost['calls'] == 1, 'postcondition', 'the text is made')
    kind = s.ghost.get('kind')
    if kind != 'error':
        E.oblige(s, bv(r, 32) == z3.If(z3.ULT(T, n), z3.Extract(31, 0, T), w32(0xFFFFFFFF)), 'postcondition', 'the length, or -1 exactly if it does not fit')
        m = z3.If(z3.ULT(T, n), T, n - 1)
        E.oblige(s, z3.Implies(z3.ULT(K, m), bv(f.read(K + 8), 8) == bv(F.read(K), 8)), 'postcondition', 'the longest prefix that fits')
        E.oblige(s, bv(f.read(m + 8), 8) == 0, 'postcondition', 'terminated')
    else:
        E.oblige(s, bv(r, 32) == 0xFFFFFFFF, 'postcondition', 'a failure is reported')
        E.oblige(s, bv(f.read(n + 7), 8) == 0, 'postcondition', 'terminated even then')
    E.oblige(s, z3.Implies(z3.Or(z3.ULT(K, 8), z3.And(z3.UGE(K, n + 8), z3.ULT(K, n + 16))), bv(f.read(K), 8) == bv(before.read(K), 8)), 'postcondition', 'nothing outside the buffer is written')


def unit_format(ctx):
    """winpty_vsnprintf, winpty_snprintf"""
    for fn, fixed in (('e_vsn', None), ('e_sn', None), ('e_vsn1', 1), ('e_vsn16', 16), ('e_sn1', 1), ('e_sn16', 16)):
        E = ctx.mk(SRCS)
        st = State()
        n = z3.BitVec('size', 64) if fixed is None else w64(fixed)
        if fixed is None:
            st.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, 0x7FFFFFFF)))
            E.inputs['size'] = n
        before = FArr.base(8, 'before')
        buf = E.new_arr(st, 1, {0: 1}, n + 16, 'buffer', {0: before})
        where = Ptr(buf.oid, 8)
        F, T = formatter(E, st, where, n)
        fmt, ap = E.new_cells(st, 8, 'format'), E.new_cells(st, 64, 'arguments')
        handler(E, r'^(assertTrace|abort|_assert|_wassert)\b', lambda E, s, a, ci: (E.oblige(s, False, 'assertion', 'no assertion fails for a buffer'), NoReturn())[1], 'a failed assertion')
        E.targets.append('winpty_vsnprintf' if 'vsn' in fn else 'winpty_snprintf')
        args = [where] + ([n] if fixed is None else []) + [fmt, z3.BitVec('x', 32) if '_sn' in fn else ap]
        for s, o in E.exec_fn(st, E.find_fn(r'^%s\(' % fn), args):
            check_format(E, s, o, buf, n, F, T, before)


def unit_copy(ctx):
    """winpty_wcsncpy, winpty_wcsncpy_nul"""
    for fn, n, nul in (('e_cpy1', 1, False), ('e_cpy32', 32, False), ('e_cpyn1', 1, True), ('e_cpyn32', 32, True)):
        E = ctx.mk(SRCS)
        st = State()
        L = z3.BitVec('L', 64)
        st.assume(z3.ULE(L, 1 << 30))
        f = FArr.base(16, 'source').set(L, 0)
        st.assume(z3.Implies(z3.ULT(K, L), bv(f.read(K), 16) != 0))
        j = z3.BitVec('j', 64)
        for i in range(n):
            st.assume(z3.Implies(z3.ULT(w64(i), L), bv(f.read(w64(i)), 16) != 0))
        src = E.new_arr(st, 2, {0: 2}, L + 1, 'source', {0: f})
        before = FArr.base(16, 'before')
        d = E.new_arr(st, 2, {0: 2}, n + 8, 'destination', {0: before})
        where = Ptr(d.oid, 8)
        E.inputs.update(L=L, K=K)
        now = lambda s, i: bv(s.mem[d.oid].fields[0][1].read(i), 16)
        same = lambda s, lo: z3.Implies(z3.Or(z3.ULT(K, 4), z3.And(z3.UGE(K, n + 4), z3.ULT(K, n + 8))), now(s, K) == bv(before.read(K), 16))
        i64 = lambda c: bv(c['i'], 64)
        copied = lambda s, hi: z3.Implies(z3.ULT(K, hi), now(s, K + 4) == bv(f.read(K), 16))

        def first(c):
            return [('within both', z3.And(z3.ULE(i64(c), n), z3.ULE(i64(c), L))), ('copied so far', copied(c.st, i64(c))), ('nothing else', same(c.st, 0))]

        def second(c):
            m = z3.If(z3.ULT(L, n), L, w64(n))
            return [('past the text', z3.And(z3.ULE(i64(c), n), z3.UGE(i64(c), m))), ('copied', copied(c.st, m)), ('filled so far', z3.Implies(z3.And(z3.UGE(K, m), z3.ULT(K, i64(c))), now(c.st, K + 4) == 0)), ('nothing else', same(c.st, 0))]
        lp1 = LoopSpec('copy', first, fn=r'winpty_wcsncpy<', vars={'i': ('i', 64)}, decreases=lambda c: n - i64(c))
        lp2 = LoopSpec('fill', second, fn=r'winpty_wcsncpy<', vars={'i': ('i', 64)}, decreases=lambda c: n - i64(c))
        E.loops = [lp1, lp2]
        E.targets.append('winpty_wcsncpy_nul' if nul else 'winpty_wcsncpy')
        handler(E, r'^(assertTrace|abort|_assert|_wassert)\b', lambda E, s, a, ci: (E.oblige(s, False, 'assertion', 'no assertion fails'), NoReturn())[1], 'a failed assertion')
        for s, o in E.exec_fn(st, E.find_fn(r'^%s\(' % fn), [where, src]):
            if not isinstance(o, Ret):
                continue
            cap = n - 1 if nul else n
            m = z3.If(z3.ULT(L, cap), L, w64(cap))
            E.oblige(s, copied(s, m), 'postcondition', 'the longest prefix that fits')
            E.oblige(s, z3.Implies(z3.And(z3.UGE(K, m), z3.ULT(K, n)), now(s, K + 4) == 0), 'postcondition', 'the rest is null' + (', so it is terminated' if nul else ''))
            E.oblige(s, same(s, 0), 'postcondition', 'nothing outside the buffer is written')
            E.oblige(s, isinstance(o.v, Ptr) and o.v.oid == d.oid, 'postcondition', 'the destination is returned')


def unit_len(ctx):
    """winpty_wcsnlen"""
    E = ctx.mk(SRCS)
    st = State()
    L, mx, cap = (z3.BitVec(x, 64) for x in ('L', 'maxlen', 'capacity'))
    st.assume(z3.And(z3.ULE(L, 1 << 30), z3.ULE(cap, 1 << 30), z3.ULE(cap, L + 1)))
    E.inputs.update(L=L, maxlen=mx, capacity=cap)
    # the first null is at L, or there is none in the memory given and maxlen says so
    st.assume(z3.Or(cap == L + 1, z3.ULE(mx, cap)))
    f = FArr.base(16, 'source').set(L, 0)
    src = E.new_arr(st, 2, {0: 2}, cap, 'source', {0: f})
    st.assume(z3.Implies(z3.ULT(K, L), bv(f.read(K), 16) != 0))
    i64 = lambda c: bv(c['i'], 64)

    def nonnull(E, c):
        # (the string has no null before L: assumed at the place read)
        i = i64(c)
        c.st.assume(z3.Implies(z3.ULT(i, L), bv(f.read(i), 16) != 0))
    E.loops = [LoopSpec('search', lambda c: [('nothing found so far', z3.And(z3.ULE(i64(c), mx), z3.ULE(i64(c), L)))], fn=r'winpty_wcsnlen', vars={'i': ('i', 64)}, decreases=lambda c: L - i64(c),
                        on_head=lambda c: nonnull(E, c))]
    handler(E, r'^(assertTrace|abort|_assert|_wassert)\b', lambda E, s, a, ci: (E.oblige(s, False, 'assertion', 'no assertion fails'), NoReturn())[1], 'a failed assertion')
    E.targets.append('winpty_wcsnlen')
    for s, o in E.exec_fn(st, E.find_fn(r'^winpty_wcsnlen\('), [src, mx]):
        if isinstance(o, Ret):
            E.oblige(s, bv(o.v, 64) == z3.If(z3.ULT(L, mx), L, mx), 'postcondition', 'the length, at most the limit')


def unit_utf8(ctx):
    """utf8FromWide: all that the system converts, exactly"""
    E = ctx.mk(SRCS)
    st = State()
    L, M = z3.BitVec('L', 64), z3.BitVec('M', 32)
    st.assume(z3.And(z3.ULE(L, 1 << 28), z3.ULE(M, 3 << 28)))
    inp = E.new_cells(st, 32, 'input')
    f = FArr.base(16, 'input').set(L, 0)
    seq_put(E, st, inp, new_seq(E, st, 'wchar_t', L, {0: f}, isstr=True, name='input'))
    out = FArr.base(8, 'utf8')
    E.inputs.update(L=L, M=M, K=K)
    g(st, n=0)

    def conv(E, s, a, ci):
        E.oblige(s, z3.And(bv(a[0], 32) == 65001, bv(a[1], 32) == 0), 'precondition', 'UTF-8')
        E.oblige(s, bv(a[3], 32) == z3.Extract(31, 0, L), 'precondition', 'the whole text')
        src, i0 = src_range(E, s, a[2], L, 2)
        E.oblige(s, z3.Implies(z3.ULT(K, L), bv(src.read(add64(i0, K)), 16) == bv(f.read(K), 16)), 'precondition', 'the text given')
        E.oblige(s, z3.And(hv(a[6]) == 0, hv(a[7]) == 0), 'precondition', 'no replacement character for UTF-8')
        cap = bv(a[5], 32)
        res = []
        for s2, q in E.fork(s, cap == 0):
            if q:
                res.append((s2, Ret(M)))
                continue
            E.oblige(s2, z3.UGE(cap, M), 'precondition', 'room for the whole result')
            src_range(E, s2, a[4], z3.ZeroExt(32, cap), 1)
            ar = s2.mem[a[4].oid].clone()
            w, fa = ar.fields[0]
            ar.fields[0] = (w, fa.copy(a[4].off, z3.ZeroExt(32, M), out, w64(0)))
            s2.mem[a[4].oid] = ar
            res.append((s2, Ret(M)))
        return Outs(res)
    handler(E, r'^WideCharToMultiByte$', conv, 'WideCharToMultiByte: the size, or the UTF-8 form of the text')
    handler(E, r'^(assertTrace|abort|_assert|_wassert)\b', lambda E, s, a, ci: (E.oblige(s, False, 'assertion', 'no assertion fails'), NoReturn())[1], 'a failed assertion')
    r = E.new_cells(st, 32, 'ret')
    E.targets.append('utf8FromWide')
    for s, o in E.exec_fn(st, E.find_fn(r'^utf8FromWide\('), [r, inp]):
        if isinstance(o, Ret):
            q = seq_get(E, s, r)
            fa = farrs_of(E, s, q)[0]
            E.oblige(s, z3.And(bv(q.len, 64) == z3.ZeroExt(32, M), z3.Implies(z3.ULT(K, z3.ZeroExt(32, M)), bv(fa.read(K), 8) == bv(out.read(K), 8))), 'postcondition', 'exactly the converted text')


def unit_vec(ctx):
    """vectorFromString, vectorWithNulFromString"""
    for fn, nul in (('e_vec', 0), ('e_vecnul', 1)):
        E = ctx.mk(SRCS)
        st = State()
        L = z3.BitVec('L', 64)
        st.assume(z3.ULE(L, 1 << 28))
        inp = E.new_cells(st, 32, 'input')
        f = FArr.base(16, 'input').set(L, 0)
        seq_put(E, st, inp, new_seq(E, st, 'wchar_t', L, {0: f}, isstr=True, name='input'))
        r = E.new_cells(st, 24, 'ret')
        E.inputs.update(L=L, K=K)
        E.targets.append('vectorWithNulFromString' if nul else 'vectorFromString')
        for s, o in E.exec_fn(st, E.find_fn(r'^%s\(' % fn), [r, inp]):
            if isinstance(o, Ret):
                q = seq_get(E, s, r)
                fa = farrs_of(E, s, q)[0]
                E.oblige(s, z3.And(bv(q.len, 64) == L + nul, z3.Implies(z3.ULT(K, L), bv(fa.read(K), 16) == bv(f.read(K), 16))), 'postcondition', 'every character')
                if nul:
                    E.oblige(s, bv(fa.read(L), 16) == 0, 'postcondition', 'terminated')


UNITS = [('format', unit_format), ('copy', unit_copy), ('length', unit_len), ('utf8', unit_utf8), ('vector', unit_vec)]
HARNESS = ['h_d02']
RULE = 'harness: both kinds of C library, small buffers ending at unreadable memory, texts around the buffer size; distinct = cases'
