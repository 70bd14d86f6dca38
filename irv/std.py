"""Assumed contracts: C/C++ runtime, libstdc++ containers, exception ABI.

Each handler is trusted; the engine records the ones a proof used.
Containers: a std::vector<T>/std::basic_string object is one memory cell
holding Seq(len, data object); the data object is a strided array whose
element count is the length (+1 for the terminator of a string), so every
out-of-range element access, and every use of a pointer invalidated by a
reallocating operation, is a failed memory obligation.
"""
import re, z3
from sym import *
from engine import *

VSZ = {'vector': 24, 'string': 32, 'wstring': 32}
ELEM = {
    'char': (1, {0: 1}), 'unsigned char': (1, {0: 1}), 'wchar_t': (2, {0: 2}), 'unsigned long': (4, {0: 4}),
    'int': (4, {0: 4}), 'unsigned int': (4, {0: 4}), '_CHAR_INFO': (4, {0: 2, 2: 2}), 'void*': (8, {0: 8}),
    'unsigned long long': (8, {0: 8}),
}
MAXLEN = 1 << 40


def seq_get(E, st, p):
    o = E.getobj(st, p, 'read')
    if not isinstance(p.off, int):
        raise Unsupported('container at symbolic address')
    c = o.cells.get(p.off)
    if c is None and o.lazy:
        v = o.lazy(E, st, p.off, 0, False)
        if isinstance(v, Seq):
            w = E.wobj(st, p)
            w.cells[p.off] = (32 if v.isstr else 24, v)
            return v
    if c is None or not isinstance(c[1], Seq):
        raise Unsupported('uninitialised container in %s+%s' % (o.name, p.off))
    return c[1]


def seq_put(E, st, p, s):
    E.getobj(st, p, 'write')
    if not isinstance(p.off, int):
        raise Unsupported('container at symbolic address')
    n = 32 if s.isstr else 24
    w = E.wobj(st, p)
    c = w.cells.get(p.off)
    if c is not None and isinstance(c[1], Seq):
        del w.cells[p.off]
    else:
        E.carve(w, p.off, n)
    w.cells[p.off] = (n, s)


def kill(E, st, s):
    st.mem.pop(s.oid, None)


def mk_data(E, st, esz, fields, ln, name, farrs=None, isstr=False):
    cnt = add64(ln, 1) if isstr else ln
    p = E.new_arr(st, esz, fields, cnt, name, farrs)
    return p.oid


def new_seq(E, st, elem, ln, farrs=None, isstr=False, name='seq'):
    esz, fields = ELEM[elem]
    oid = mk_data(E, st, esz, fields, ln, name, farrs, isstr)
    return Seq(esz, ln, oid, isstr)


def farrs_of(E, st, s):
    o = st.mem[s.oid]
    return {f: a for f, (w, a) in o.fields.items()}


def fields_of(E, st, s):
    o = st.mem[s.oid]
    return {f: w for f, (w, a) in o.fields.items()}


def with_len(E, st, p, s, ln, farrs, name='seq'):
    """replace the container's contents (invalidates old data pointers)"""
    fl = fields_of(E, st, s)
    if s.isstr:
        farrs = {f: a.set(ln, 0) for f, a in farrs.items()}
    name = st.mem[s.oid].name
    kill(E, st, s)
    oid = mk_data(E, st, s.esz, fl, ln, name, farrs, s.isstr)
    n = Seq(s.esz, ln, oid, s.isstr)
    seq_put(E, st, p, n)
    return n


def cstr_len(E, st, p, esz):
    """length of the NUL-terminated string at p, when it is a constant"""
    n = 0
    while True:
        v = E.load(st, Ptr(p.oid, add64(p.off, n * esz)), ('i', 8 * esz), E.mods[0])
        if not isinstance(v, int):
            raise Unsupported('length of a non-constant C string')
        if v == 0:
            return n
        n += 1


def src_range(E, st, p, n, esz, what='read'):
    """(FArr, start index) for n elements at p, with the bounds obligation"""
    if isinstance(n, int) and n == 0:
        return FArr.const(8 * esz, 0), 0
    o = E.getobj(st, p, what)
    E.inb_sym(st, o, p.off, mul64(n, esz) if not isinstance(n, int) else n * esz, what)
    if o.kind == 'cells':
        if isinstance(n, int) and isinstance(p.off, int):
            a = FArr.const(8 * esz, 0)
            for i in range(n):
                a = a.set(i, E.load_raw(st, Ptr(p.oid, p.off + i * esz), esz, None))
            return a, 0
        o = E.to_arr(st, p.oid)
        if o is None:
            raise Unsupported('range of ' + str(p))
    if esz == 1 and o.stride in (2, 4, 8) and set(o.fields) == {0} and o.fields[0][0] == o.stride:
        return as_bytes(o.fields[0][1], o.stride), p.off
    if o.stride != esz or 0 not in o.fields or o.fields[0][0] != esz:
        raise Unsupported('range of unlike elements')
    r = divmod_lin(p.off, o.stride)
    if r is None or r[1]:
        raise Unsupported('range start')
    return o.fields[0][1], r[0]


def append_range(E, st, thisp, s, p, n):
    src, i0 = src_range(E, st, p, n, s.esz)
    if E.quiet == 0 and p.oid == s.oid:
        pass
    f = farrs_of(E, st, s)
    a = f[0].copy(s.len, n, src, i0) if not isinstance(n, int) else _appn(f[0], s.len, n, src, i0)
    ln = add64(s.len, n)
    ns = with_len(E, st, thisp, s, ln, {0: a})
    hook(E, st, thisp, 'append', (s.len, n, src, i0))
    return ns


def _appn(a, at, n, src, i0):
    if n > 64:
        return a.copy(at, n, src, i0)
    for k in range(n):
        a = a.set(add64(at, k), src.read(add64(i0, k)))
    return a


def hook(E, st, p, what, data):
    h = E.fn_overrides.get('seqhook')
    if h:
        h(E, st, p, what, data)


def U(v):
    """unsigned 64-bit argument"""
    return v


def elem_of(dn):
    m = re.match(r'^(?:void )?(?:.*? )?vector<(.*?)>::', dn)
    return m.group(1) if m else None


def h_vec(E, st, args, ci):
    dn = ci.dn
    m = re.search(r'vector<(?P<e>(?:[^<>]|<[^<>]*>)*)>::(?P<m>operator[^\s(]+|[\w~]+)(?P<rest>.*)$', dn)
    e, meth, rest = m.group('e'), m.group('m'), m.group('rest')
    if e not in ELEM:
        h = E.fn_overrides.get('vec:' + e)
        if h:
            return h(E, st, args, ci, e, meth)
        raise Unsupported('vector<%s>::%s' % (e, meth))
    esz, fields = ELEM[e]
    p = args[0]
    if meth in ('vector', 'insert'):
        args = [x.p if isinstance(x, PtrInt) else x for x in args]
    if meth == 'vector':
        if len(args) == 1:
            seq_put(E, st, p, new_seq(E, st, e, 0, name='vec'))
            return None
        if 'allocator' in rest and rest.startswith('(unsigned long long'):
            n = args[1]
            if rest.startswith('(unsigned long long, std::allocator') or len(args) == 3:
                seq_put(E, st, p, new_seq(E, st, e, n, {f: FArr.const(8 * w, 0) for f, w in fields.items()}, name='vec'))
                return None
            v = [E.load(st, Ptr(args[2].oid, add64(args[2].off, f)), ('i', 8 * w), ci.mod) for f, w in fields.items()]
            seq_put(E, st, p, new_seq(E, st, e, n, {f: FArr.const(8 * w, x) for (f, w), x in zip(fields.items(), v)}, name='vec'))
            return None
        if '&&' in rest:
            s = seq_get(E, st, args[1])
            seq_put(E, st, p, s)
            seq_put(E, st, args[1], new_seq(E, st, e, 0, name='moved'))
            return None
        if len(args) == 4 and all(isinstance(x, Ptr) for x in args[1:]) and set(fields) == {0}:
            a, b = args[1], args[2]
            d = divmod_lin(sub64(b.off, a.off), esz)
            if a.oid != b.oid or d is None or d[1]:
                raise Unsupported('vector range')
            src, i0 = src_range(E, st, a, d[0], esz)
            f = FArr.const(8 * esz, 0)
            f = f.copy(0, d[0], src, i0) if not isinstance(d[0], int) else _appn(f, 0, d[0], src, i0)
            seq_put(E, st, p, new_seq(E, st, e, d[0], {0: f}, name='vec'))
            return None
        if 'const&' in rest:
            s = seq_get(E, st, args[1])
            seq_put(E, st, p, new_seq(E, st, e, s.len, farrs_of(E, st, s), name='vec'))
            return None
        raise Unsupported('vector ctor ' + dn)
    if meth == '~vector':
        s = seq_get(E, st, p)
        kill(E, st, s)
        w = E.wobj(st, p)
        del w.cells[p.off]
        return None
    s = seq_get(E, st, p)
    if meth == 'size':
        return wrap64(s.len)
    if meth == 'capacity':
        c = fresh('capacity', 64)
        st.assume(z3.And(z3.UGE(c, bv(s.len, 64)), z3.ULE(c, bv(MAXLEN, 64))))
        return c
    if meth == 'empty':
        r = eq64(s.len, 0)
        return int(r) if isinstance(r, bool) else r
    if meth in ('data', 'begin', 'cbegin'):
        q = Ptr(s.oid, 0)
        return Agg([q]) if False else q
    if meth in ('end', 'cend'):
        return Ptr(s.oid, mul64(s.len, esz))
    if meth == 'operator[]':
        i = args[1]
        c = z3.ULT(bv(i, 64), bv(s.len, 64)) if not (isinstance(i, int) and isinstance(s.len, int)) else i < s.len
        E.oblige(st, c, 'memory', 'vector index in range')
        if c is False:
            raise Abort()
        return Ptr(s.oid, mul64(i, esz))
    if meth in ('front', 'back'):
        E.oblige(st, neq0(s.len), 'memory', 'vector not empty')
        return Ptr(s.oid, 0 if meth == 'front' else mul64(sub64(s.len, 1), esz))
    if meth == 'push_back':
        f = farrs_of(E, st, s)
        for ff, w in fields.items():
            v = E.load(st, Ptr(args[1].oid, add64(args[1].off, ff)), ('i', 8 * w), ci.mod)
            if isinstance(v, PtrInt) and v.p.oid in E.base_of:
                v = add64(E.base_of[v.p.oid], v.p.off)
            if isinstance(v, (PtrInt, Ptr, Seq)):
                raise Unsupported('pointer kept in a vector')
            f[ff] = f[ff].set(s.len, v)
        with_len(E, st, p, s, add64(s.len, 1), f)
        return None
    if meth == 'resize':
        n = args[1]
        if len(args) == 2:
            v = {f: 0 for f in fields}
        else:
            v = {f: E.load(st, Ptr(args[2].oid, add64(args[2].off, f)), ('i', 8 * w), ci.mod) for f, w in fields.items()}
        f = farrs_of(E, st, s)
        # elements past the old length become v
        o = {}
        for ff, w in fields.items():
            a = f[ff]
            o[ff] = FArr.fun(8 * w, (lambda a, ln, vv, ww: lambda i: ite_lt(i, ln, a.read(i), vv, ww))(a, s.len, v[ff], 8 * w))
        with_len(E, st, p, s, n, o)
        return None
    if meth == 'clear':
        with_len(E, st, p, s, 0, farrs_of(E, st, s))
        return None
    if meth == 'swap':
        s2 = seq_get(E, st, args[1])
        seq_put(E, st, p, s2)
        seq_put(E, st, args[1], s)
        return None
    if meth == 'operator=':
        s2 = seq_get(E, st, args[1])
        if '&&' in rest:
            seq_put(E, st, p, s2)
            kill(E, st, s)
            seq_put(E, st, args[1], new_seq(E, st, e, 0, name='moved'))
        else:
            with_len(E, st, p, s, s2.len, farrs_of(E, st, s2))
        return p
    if meth == 'insert':
        # insert(pos, first, last) at the end only
        pos = args[1] if not isinstance(args[1], Agg) else args[1].v[0]
        if isinstance(pos, Ptr) and len(args) == 4 and isinstance(args[2], Ptr):
            a, b = args[2], args[3]
            if isinstance(a, Agg): a = a.v[0]
            if isinstance(b, Agg): b = b.v[0]
            end = eq64(pos.off, mul64(s.len, esz))
            if end is not True and not E.must(st, end):
                raise Unsupported('vector insert not at end')
            d = divmod_lin(sub64(b.off, a.off), esz)
            if a.oid != b.oid or d is None or d[1]:
                raise Unsupported('vector insert range')
            n = d[0]
            if esz in (1, 2, 4, 8) and set(fields) == {0}:
                src, i0 = src_range(E, st, a, n, esz)
                f = farrs_of(E, st, s)
                arr = f[0].copy(s.len, n, src, i0) if not isinstance(n, int) else _appn(f[0], s.len, n, src, i0)
                with_len(E, st, p, s, add64(s.len, n), {0: arr})
                return p if False else Ptr(seq_get(E, st, p).oid, mul64(s.len, esz))
            f = farrs_of(E, st, s)
            if not (isinstance(n, int) and n == 0):
                o = E.getobj(st, a, 'read')
                E.inb_sym(st, o, a.off, mul64(n, esz) if not isinstance(n, int) else n * esz, 'read')
                if o.kind != 'arr' or o.stride != esz or set(o.fields) != set(fields):
                    raise Unsupported('vector insert from unlike elements')
                r = divmod_lin(a.off, esz)
                if r is None or r[1]:
                    raise Unsupported('vector insert range start')
                for ff in fields:
                    f[ff] = f[ff].copy(s.len, n, o.fields[ff][1], r[0])
            with_len(E, st, p, s, add64(s.len, n), f)
            return Ptr(seq_get(E, st, p).oid, mul64(s.len, esz))
        raise Unsupported('vector insert')
    raise Unsupported('vector<%s>::%s' % (e, meth))


def neq0(l):
    return l != 0 if isinstance(l, int) else bv(l, 64) != 0


def ite_lt(i, n, a, b, w):
    if isinstance(i, int) and isinstance(n, int):
        return a if i < n else b
    return ite(z3.ULT(bv(i, 64), bv(n, 64)), a, b, w)


def h_str(E, st, args, ci):
    dn = ci.dn
    m = re.search(r'(?<![\w:])(?P<t>w?string)::(?P<m>[\w~]+|operator\S+?)\((?P<a>.*)\)', dn)
    t, meth, sig = m.group('t'), m.group('m'), m.group('a')
    esz = 2 if t == 'wstring' else 1
    elem = 'wchar_t' if t == 'wstring' else 'char'
    C = elem
    if meth in ('string', 'wstring', 'basic_string'):
        meth = 'ctor'
    p = args[0]
    if meth == 'ctor':
        if len(args) == 1:
            seq_put(E, st, p, new_seq(E, st, elem, 0, {0: FArr.const(8 * esz, 0)}, True, 'str'))
            return None
        a1 = sig.split(',')[0].strip()
        if a1.endswith('&&'):
            s = seq_get(E, st, args[1])
            seq_put(E, st, p, s)
            seq_put(E, st, args[1], new_seq(E, st, elem, 0, {0: FArr.const(8 * esz, 0)}, True, 'moved'))
            return None
        if 'string const&' in a1:
            s = seq_get(E, st, args[1])
            seq_put(E, st, p, new_seq(E, st, elem, s.len, farrs_of(E, st, s), True, 'str'))
            return None
        if a1 == C + ' const*':
            h = E.fn_overrides.get('cstr')
            n = None
            if len(args) >= 3 and 'unsigned long long' in sig:
                n = args[2]
            elif len(args) >= 3 and 'const*, ' + C in sig:
                d = divmod_lin(sub64(args[2].off, args[1].off), esz)
                n = d[0]
            if n is None:
                if args[1].oid == 0:
                    E.oblige(st, False, 'memory', 'string constructed from null pointer')
                    raise Abort()
                n = c_len(E, st, args[1], esz)
            src, i0 = src_range(E, st, args[1], n, esz)
            a = FArr.const(8 * esz, 0)
            a = _appn(a, 0, n, src, i0) if isinstance(n, int) else a.copy(0, n, src, i0)
            ns = new_seq(E, st, elem, n, {0: a.set(n, 0)}, True, 'str')
            seq_put(E, st, p, ns)
            return None
        if a1 == 'unsigned long long':
            n, c = args[1], args[2]
            seq_put(E, st, p, new_seq(E, st, elem, n, {0: FArr.const(8 * esz, c).set(n, 0)}, True, 'str'))
            return None
        if a1 == 'std::initializer_list':
            pass
        raise Unsupported('string ctor ' + dn)
    if meth in ('~string', '~wstring', '~basic_string'):
        s = seq_get(E, st, p)
        kill(E, st, s)
        w = E.wobj(st, p)
        del w.cells[p.off]
        return None
    s = seq_get(E, st, p)
    if meth in ('size', 'length'):
        return wrap64(s.len)
    if meth == 'empty':
        r = eq64(s.len, 0)
        return int(r) if isinstance(r, bool) else r
    if meth in ('c_str', 'data', 'begin', 'cbegin'):
        return Ptr(s.oid, 0)
    if meth in ('end', 'cend'):
        return Ptr(s.oid, mul64(s.len, esz))
    if meth == 'capacity':
        c = fresh('capacity', 64)
        st.assume(z3.And(z3.UGE(c, bv(s.len, 64)), z3.ULE(c, bv(MAXLEN, 64))))
        return c
    if meth == 'reserve' or meth == 'shrink_to_fit':
        with_len(E, st, p, s, s.len, farrs_of(E, st, s))
        return None
    if meth in ('operator[]', 'at'):
        i = args[1]
        c = z3.ULE(bv(i, 64), bv(s.len, 64)) if not (isinstance(i, int) and isinstance(s.len, int)) else i <= s.len
        E.oblige(st, c, 'memory', 'string index in range')
        if c is False:
            raise Abort()
        return Ptr(s.oid, mul64(i, esz))
    if meth in ('front', 'back'):
        E.oblige(st, neq0(s.len), 'memory', 'string not empty')
        return Ptr(s.oid, 0 if meth == 'front' else mul64(sub64(s.len, 1), esz))
    if meth == 'clear':
        with_len(E, st, p, s, 0, farrs_of(E, st, s))
        hook(E, st, p, 'clear', None)
        return None
    if meth == 'push_back' or (meth == 'operator+=' and sig == C):
        f = farrs_of(E, st, s)
        with_len(E, st, p, s, add64(s.len, 1), {0: f[0].set(s.len, args[1])})
        hook(E, st, p, 'append', (s.len, 1, FArr.const(8 * esz, args[1]), 0))
        return p
    if meth in ('append', 'operator+='):
        a1 = sig.split(',')[0].strip()
        if a1 == C + ' const*':
            if len(args) == 3:
                n = args[2]
                if isinstance(n, Ptr):
                    n = divmod_lin(sub64(n.off, args[1].off), esz)[0]
            else:
                n = c_len(E, st, args[1], esz)
            append_range(E, st, p, s, args[1], n)
            return p
        if 'string const&' in a1 and len(args) == 2:
            s2 = seq_get(E, st, args[1])
            f = farrs_of(E, st, s)
            src = farrs_of(E, st, s2)[0]
            n = s2.len
            a = f[0].copy(s.len, n, src, 0) if not isinstance(n, int) else _appn(f[0], s.len, n, src, 0)
            with_len(E, st, p, s, add64(s.len, n), {0: a})
            hook(E, st, p, 'append', (s.len, n, src, 0))
            return p
        if a1 == 'unsigned long long':
            n, c = args[1], args[2]
            f = farrs_of(E, st, s)
            with_len(E, st, p, s, add64(s.len, n), {0: f[0].fill(s.len, n, c)})
            hook(E, st, p, 'append', (s.len, n, FArr.const(8 * esz, c), 0))
            return p
        raise Unsupported('string append ' + dn)
    if meth == 'insert' and sig.startswith('unsigned long long') and args[1] == 0 and len(args) in (3, 4):
        # at the front
        if 'string const&' in sig and len(args) == 3:
            s2 = seq_get(E, st, args[2])
            src, i0, n = farrs_of(E, st, s2)[0], 0, s2.len
        elif sig.split(',')[1].strip() == C + ' const*':
            n = args[3] if len(args) == 4 else c_len(E, st, args[2], esz)
            src, i0 = src_range(E, st, args[2], n, esz)
        else:
            raise Unsupported('string insert ' + dn)
        old = farrs_of(E, st, s)[0]
        a = FArr.const(8 * esz, 0)
        a = _appn(a, 0, n, src, i0) if isinstance(n, int) else a.copy(0, n, src, i0)
        a = _appn(a, n, s.len, old, 0) if isinstance(s.len, int) else a.copy(n, s.len, old, 0)
        with_len(E, st, p, s, add64(s.len, n), {0: a})
        hook(E, st, p, 'insert', (n, src, i0))
        return p
    if meth == 'resize':
        n = args[1]
        c = args[2] if len(args) > 2 else 0
        f = farrs_of(E, st, s)
        a = f[0]
        o = FArr.fun(8 * esz, lambda i: ite_lt(i, s.len, a.read(i), c, 8 * esz))
        with_len(E, st, p, s, n, {0: o})
        hook(E, st, p, 'resize', (n, c))
        return None
    if meth == 'erase':
        pos = args[1] if len(args) > 1 else 0
        if len(args) > 2 and isinstance(args[1], int) and args[1] == 0 or (len(args) > 2 and not isinstance(args[1], Ptr)):
            n = args[2]
            f = farrs_of(E, st, s)
            if isinstance(pos, int) and pos == 0:
                rem = ite(z3.ULT(bv(n, 64), bv(s.len, 64)), bv(n, 64), bv(s.len, 64), 64) if not (isinstance(n, int) and isinstance(s.len, int)) else min(n, s.len)
                a = f[0]
                o = FArr.fun(8 * esz, lambda i: a.read(add64(i, rem)))
                with_len(E, st, p, s, sub64(s.len, rem), {0: o})
                hook(E, st, p, 'erase', (pos, rem))
                return p
        raise Unsupported('string erase ' + dn)
    if meth == 'operator=' or meth == 'assign':
        if 'string const&' in sig:
            s2 = seq_get(E, st, args[1])
            if args[1].oid == p.oid and args[1].off == p.off:
                return p
            with_len(E, st, p, s, s2.len, farrs_of(E, st, s2))
            hook(E, st, p, 'assign', args[1])
            return p
        if '&&' in sig:
            s2 = seq_get(E, st, args[1])
            kill(E, st, s)
            seq_put(E, st, p, s2)
            seq_put(E, st, args[1], new_seq(E, st, elem, 0, {0: FArr.const(8 * esz, 0)}, True, 'moved'))
            hook(E, st, p, 'assign', args[1])
            return p
        if sig.startswith(C + ' const*'):
            n = args[2] if len(args) > 2 else c_len(E, st, args[1], esz)
            src, i0 = src_range(E, st, args[1], n, esz)
            a = FArr.const(8 * esz, 0)
            a = _appn(a, 0, n, src, i0) if isinstance(n, int) else a.copy(0, n, src, i0)
            with_len(E, st, p, s, n, {0: a})
            hook(E, st, p, 'assign', None)
            return p
        raise Unsupported('string assign ' + dn)
    if meth == 'swap':
        s2 = seq_get(E, st, args[1])
        seq_put(E, st, p, s2)
        seq_put(E, st, args[1], s)
        hook(E, st, p, 'swap', args[1])
        return None
    if meth == 'substr':
        # sret: args = (ret, this, pos, n)
        pass
    raise Unsupported('%s::%s(%s)' % (t, meth, sig))


def c_len(E, st, p, esz):
    h = E.fn_overrides.get('cstrlen')
    if h:
        r = h(E, st, p, esz)
        if r is not None:
            return r
    return cstr_len(E, st, p, esz)


def h_substr(E, st, args, ci):
    ret, p, pos, n = args
    s = seq_get(E, st, p)
    t = 'wchar_t' if s.esz == 2 else 'char'
    L = bv(s.len, 64)
    c = z3.ULE(bv(pos, 64), L) if not (isinstance(pos, int) and isinstance(s.len, int)) else pos <= s.len
    E.oblige(st, c, 'memory', 'substr position in range')
    if c is False:
        raise Abort()
    avail = sub64(s.len, pos)
    if isinstance(avail, int) and isinstance(n, int):
        m = min(avail, n)
    else:
        m = ite(z3.ULT(bv(n, 64), bv(avail, 64)), bv(n, 64), bv(avail, 64), 64)
        m = norm(z3.simplify(m), 64)
    a = farrs_of(E, st, s)[0]
    o = FArr.fun(8 * s.esz, lambda i: a.read(add64(i, pos)))
    seq_put(E, st, ret, new_seq(E, st, t, m, {0: o.set(m, 0)}, True, 'substr'))
    return None


def h_memcpy(E, st, args, ci):
    n = args[2]
    E.memcpy(st, args[0], args[1], n if not isinstance(n, int) else n)
    return args[0]


def h_memset(E, st, args, ci):
    p, v, n = args[0], args[1], args[2]
    if isinstance(n, int) and n == 0:
        return p
    o = E.getobj(st, p, 'write')
    b = v & 255 if isinstance(v, int) else norm(z3.Extract(7, 0, bv(v, v.size())), 8)
    if isinstance(n, int):
        E.inb(st, o, p.off, n, 'write')
        if o.kind == 'cells':
            w = E.wobj(st, p)
            E.carve(w, p.off, n)
            w.fills = w.fills + ((p.off, p.off + n, b),)
            return p
    else:
        E.inb_sym(st, o, p.off, n, 'write')
    if o.kind == 'cells':
        o = E.to_arr(st, p.oid)
    if o is None:
        raise Unsupported('memset')
    w = E.wobj(st, p)
    d, k = divmod_lin(p.off, o.stride), divmod_lin(n, o.stride)
    if d is None or k is None or d[1] or k[1] or not isinstance(b, int):
        raise Unsupported('memset of partial elements')
    for f, (fw, a) in list(w.fields.items()):
        w.fields[f] = (fw, a.fill(d[0], k[0], sum(b << (8 * i) for i in range(fw))))
    return p


def h_new(E, st, args, ci):
    n = args[0]
    if not isinstance(n, int):
        if 'new[]' in ci.dn:
            h = E.fn_overrides.get('newarray')
            if h:
                return h(E, st, args, ci)
        raise Unsupported('allocation of symbolic size')
    o = Obj('cells', n, 'heap')
    o.tag = 'heap'
    return Ptr(E.add_obj(st, o), 0)


def h_delete(E, st, args, ci):
    p = args[0]
    if p.oid == 0:
        return None
    o = st.mem.get(p.oid)
    if o is None or not o.alive:
        E.oblige(st, False, 'memory', 'delete of live object')
        raise Abort()
    o = E.wobj(st, p)
    o.alive = False
    return None


def h_ignore(E, st, args, ci):
    return None


def h_strlen(E, st, args, ci):
    esz = 2 if 'wcs' in ci.dn or 'wchar_t' in ci.dn else 1
    return c_len(E, st, args[0], esz)


def h_assert_fail(E, st, args, ci):
    E.oblige(st, False, 'assertion', 'runtime ASSERT holds')
    return NoReturn()


def h_noreturn(E, st, args, ci):
    return NoReturn()


def h_throw_std(name):
    def h(E, st, args, ci):
        o = Obj('cells', 16, 'exc')
        return Throw('@_ZTI' + name, Ptr(E.add_obj(st, o), 0))
    return h


def h_alloc_exc(E, st, args, ci):
    o = Obj('cells', args[0], 'exception')
    return Ptr(E.add_obj(st, o), 0)


def h_cxa_throw(E, st, args, ci):
    ti = args[1]
    if isinstance(ti, Ptr) and ti.oid in E.oid_global:
        return Throw(E.oid_global[ti.oid][0], args[0])
    raise Unsupported('throw')


def h_typeid_for(E, st, args, ci):
    return E.ti_index(E.oid_global[args[0].oid][0])


def h_begin_catch(E, st, args, ci):
    st.ghost = dict(st.ghost)
    stack = st.ghost.get('%caught', ())
    st.ghost['%caught'] = stack + (st.ghost.get('%exc'),)
    return args[0]


def h_end_catch(E, st, args, ci):
    st.ghost = dict(st.ghost)
    stack = st.ghost.get('%caught', ())
    st.ghost['%caught'] = stack[:-1]
    return None


def h_rethrow(E, st, args, ci):
    stack = st.ghost.get('%caught', ())
    return stack[-1]


def h_terminate(E, st, args, ci):
    E.oblige(st, False, 'exception', 'no exception escapes to terminate')
    return NoReturn()


def h_anystr(E, st, args, ci):
    n = fresh('anylen', 64)
    st.assume(z3.ULE(n, bv(1 << 20, 64)))
    seq_put(E, st, args[0], new_seq(E, st, 'char', n, {0: FArr.base(8, 'anystr').set(n, 0)}, True, 'anystr'))
    return None


def h_bool(E, st, args, ci):
    return z3.Bool(fresh_name(short(ci.dn)))


def h_minmax(E, st, args, ci):
    """std::min / std::max of two ints: a reference to the smaller / larger"""
    m = re.search(r'\b(min|max)<(int|long|short|unsigned int|unsigned long|unsigned long long|long long)>', ci.dn)
    w = {'short': 2, 'int': 4, 'long': 4, 'unsigned int': 4, 'unsigned long': 4}.get(m.group(2), 8)
    a, b = (bv(E.load_raw(st, p, w, None), 8 * w) for p in args[:2])
    lt = (lambda x, y: z3.ULT(x, y)) if 'unsigned' in m.group(2) else (lambda x, y: x < y)
    v = z3.If(lt(b, a), b, a) if m.group(1) == 'min' else z3.If(lt(a, b), b, a)
    p = E.new_cells(st, w, 'minmax')
    E.store_raw(st, p, z3.simplify(v), w)
    return p


def install(E):
    H = []

    def add(pat, fn, trusted=True):
        H.append((re.compile(pat), fn, trusted))
    add(r'^(?:\S+ )?vector<.*>::(?:vector|~vector|size|capacity|empty|data|begin|end|cbegin|cend|operator\[\]|front|back|push_back|resize|clear|swap|operator=|insert)\b', h_vec, 'libstdc++ std::vector')
    add(r'^vector<\w+>::reserve\(', h_ignore, 'libstdc++ std::vector')
    add(r'^(?:void )?vector<\w+>::vector<', h_vec, 'libstdc++ std::vector')
    add(r'^(?:.* )?vector<[^:]*>::insert<', h_vec, 'libstdc++ std::vector')
    add(r'^(?:[\w:&*]+ )?vector<[^:]*>::operator', h_vec, 'libstdc++ std::vector')
    add(r'^w?string::substr\(', h_substr, 'libstdc++ std::basic_string')
    add(r'^(?:void )?w?string::(?:w?string|basic_string)<', h_str_tmpl, 'libstdc++ std::basic_string')
    add(r'^(?:w?string& )?w?string::assign<\w+ const\*', h_str_tmpl, 'libstdc++ std::basic_string')
    add(r'^(?:.* )?w?string::(?:[\w~]+|operator\S+?)\(', h_str, 'libstdc++ std::basic_string')
    add(r'^std::allocator<.*>::(allocator|~allocator)\(', h_ignore, False)
    add(r'^(std::)?(memcpy|memmove|wmemcpy)(\(|$)', h_memcpy_any, 'C memcpy/memmove')
    add(r'^llvm\.(memcpy|memmove)\.', h_memcpy, 'C memcpy/memmove')
    add(r'^llvm\.memset\.', h_memset, 'C memset')
    add(r'^memset$', h_memset, 'C memset')
    add(r'^operator new(\[\])?\(', h_new, 'operator new (does not fail)')
    add(r'^operator delete(\[\])?\(', h_delete, 'operator delete')
    add(r'^(strlen|wcslen)$', h_strlen, 'C strlen/wcslen')
    add(r'^std::char_traits<.*>::length\(', h_strlen, 'C strlen/wcslen')
    add(r'^trace\(', h_ignore, 'trace() has no effect on program state')
    add(r'^utf8FromWide\(', h_anystr, 'utf8FromWide returns some string')
    add(r'^isTracingEnabled\(', h_bool, 'isTracingEnabled() returns any value')
    add(r'^(agentAssertFail|assertTrace|agentShutdown)\(', h_assert_fail, False)
    add(r'^std::__throw_length_error', h_throw_std('St12length_error'), False)
    add(r'^std::__throw_(out_of_range|logic_error)', h_throw_std('St11logic_error'), False)
    add(r'^std::__throw_bad_alloc', h_throw_std('St9bad_alloc'), False)
    add(r'^__cxa_allocate_exception$', h_alloc_exc, 'Itanium C++ exception ABI')
    add(r'^__cxa_free_exception$', h_ignore, 'Itanium C++ exception ABI')
    add(r'^__cxa_throw$', h_cxa_throw, 'Itanium C++ exception ABI')
    add(r'^llvm\.eh\.typeid\.for', h_typeid_for, 'Itanium C++ exception ABI')
    add(r'^__cxa_begin_catch$', h_begin_catch, 'Itanium C++ exception ABI')
    add(r'^__cxa_end_catch$', h_end_catch, 'Itanium C++ exception ABI')
    add(r'^__cxa_rethrow$', h_rethrow, 'Itanium C++ exception ABI')
    add(r'^(__clang_call_terminate|std::terminate\(\)|std::terminate|abort)$', h_terminate, False)
    add(r'^llvm\.(assume|donothing)', h_ignore, False)
    add(r'^llvm\.trap', h_noreturn, False)
    E.handlers = H


def h_memcpy_any(E, st, args, ci):
    n = args[2]
    if 'wmem' in ci.dn:
        n = mul64(n, 2)
    E.memcpy(st, args[0], args[1], n)
    return args[0]


def h_str_tmpl(E, st, args, ci):
    """string<Iter,...>(first, last, alloc) and string<alloc>(char const*, alloc)"""
    dn = ci.dn
    m = re.search(r'(?<![\w:])(w?string)::', dn)
    esz = 2 if m.group(1) == 'wstring' else 1
    elem = 'wchar_t' if esz == 2 else 'char'
    p = args[0]
    a = args[1]
    if len(args) >= 3 and isinstance(args[2], Ptr) and args[2].oid == a.oid:
        n = divmod_lin(sub64(args[2].off, a.off), esz)[0]
    else:
        if a.oid == 0:
            E.oblige(st, False, 'memory', 'string constructed from null pointer')
            raise Abort()
        n = c_len(E, st, a, esz)
    src, i0 = src_range(E, st, a, n, esz)
    arr = FArr.const(8 * esz, 0)
    arr = _appn(arr, 0, n, src, i0) if isinstance(n, int) else arr.copy(0, n, src, i0)
    seq_put(E, st, p, new_seq(E, st, elem, n, {0: arr.set(n, 0)}, True, 'str'))
    return None
