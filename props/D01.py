from common import *

TU_SB = tu('strbuilder.cc')
SRCS = [TU_SB]
INTS = [('signed char', 8, True), ('unsigned char', 8, False), ('short', 16, True), ('unsigned short', 16, False), ('int', 32, True), ('unsigned int', 32, False),
        ('long', 32, True), ('unsigned long', 32, False), ('long long', 64, True), ('unsigned long long', 64, False)]
WW = 72


def vstring(E, s, ret, cw, n):
    """(characters, length) of the returned ValueString<C, n>; both concrete in number"""
    V = View(E, 'ValueString<%s, %dULL>' % ('char' if cw == 8 else 'wchar_t', n), ret)
    off, size = V.get(s, 'm_offset'), V.get(s, 'm_size')
    if not isinstance(off, int) or not isinstance(size, int):
        raise Unsupported('length not decided on a path')
    base, asz = V.at('m_array')
    ok = off + size + 1 <= n
    E.oblige(s, ok, 'memory', 'the text and its terminator lie in the array')
    if not ok:
        return None, size
    b = cw // 8
    cs = [bv(E.load_raw(s, Ptr(base.oid, base.off + (off + i) * b), b, None), cw) for i in range(size + 1)]
    E.oblige(s, cs[-1] == 0, 'postcondition', 'the text is terminated')
    return cs[:-1], size


def consts(e, seen=None):
    """names of the constants of a term"""
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(x))
        todo += x.children()
    return out


def has(E, s, h):
    """is the definition of this quotient part of the path?"""
    qn = str(h[1])
    return any(qn in pnames(p) for p in s.pc)


NAMES = {}


def pnames(p):
    r = NAMES.get(p.get_id())
    if r is None:
        r = NAMES[p.get_id()] = (p, consts(p))
    return r[1]


def small(*hs):
    """a state with only the defining facts of these quotients"""
    t = State()
    for h in hs:
        t.assume(h[4])
    return t


def dec_unit(I, w, signed):
    def unit(ctx):
        for cw, nm in ((8, 'decOfInt'), (16, 'wdecOfInt')):
            E = ctx.mk([TU_SB])
            E.divfacts = {}
            E.merge = False
            st = State()
            V = z3.BitVec('value', w)
            E.inputs['value'] = V
            n = w // 8 * 3 + 2
            ret = E.new_cells(st, class_size(E, 'ValueString<%s, %dULL>' % ('char' if cw == 8 else 'wchar_t', n)), 'result')
            ext = z3.SignExt if signed else z3.ZeroExt
            v = ext(WW - w, V)
            neg = V < 0 if signed else z3.BoolVal(False)
            mag = z3.If(neg, -v, v)
            for s, o in E.exec_fn(st, E.find_fn(r'\b%s<%s>\(' % (nm, I)), [ret, V]):
                cs, size = vstring(E, s, ret, cw, n)
                if cs is None:
                    continue
                E.oblige(s, size > 0, 'postcondition', 'at least one digit')
                if not size:
                    continue
                isneg = E.must(s, neg)
                if isneg:
                    E.oblige(s, cs[0] == ord('-'), 'postcondition', 'a negative number starts with a minus sign')
                    cs = cs[1:]
                    E.oblige(s, len(cs) > 0, 'postcondition', 'digits follow the minus sign')
                    if not cs:
                        continue
                else:
                    E.oblige(s, z3.Not(neg), 'postcondition', 'the sign is decided')
                # the digits from the right, with the remainder each one is made of
                log = [h for h in E.divlog if has(E, s, h)]
                rem = []
                for i, c in enumerate(reversed(cs)):
                    h = log[i] if i < len(log) else None
                    if h is not None and E.solver.check([c != z3.ZeroExt(cw - h[3].size(), h[3]) + ord('0')])[0] == 'unsat':
                        E.oblige(small(h), z3.And(z3.UGE(c, ord('0')), z3.ULE(c, ord('9'))), 'postcondition', 'every other character is a digit')
                        rem.append(h[3])
                    else:
                        E.oblige(s, z3.And(z3.UGE(c, ord('0')), z3.ULE(c, ord('9'))), 'postcondition', 'every other character is a digit')
                        rem.append(None)
                if len(cs) > 1:
                    t = small(*log[-2:]) if len(log) == len(cs) else s
                    for p in s.pc:
                        if t is not s and pnames(p) <= {str(log[-1][1]), str(log[-2][1])}:
                            t.assume(p)
                    E.oblige(t, cs[0] != ord('0'), 'postcondition', 'no leading zero')
                # the value: sum of digit * 10^k, over the integers (WW bits hold 21 digits)
                lhs, k = z3.BitVecVal(0, WW), 1
                for c, r in zip(reversed(cs), rem):
                    lhs = lhs + (z3.ZeroExt(WW - r.size(), r) if r is not None else z3.ZeroExt(WW - cw, c) - ord('0')) * k
                    k *= 10
                rhs = mag
                if log and all(r is not None for r in rem) and len(log) == len(cs):
                    x0 = log[0][0]
                    t = State()
                    t.pc = tuple(p for p in s.pc if pnames(p) <= {'value'})
                    E.oblige(t, z3.ZeroExt(WW - x0.size(), x0) == mag, 'lemma', 'the number divided is the magnitude')
                    # eliminate the quotients by their defining equations, innermost last
                    c0 = None
                    for i, h in enumerate(log):
                        x, q, rr, r, f, b = h
                        step = z3.ZeroExt(WW - q.size(), q) * b + z3.ZeroExt(WW - r.size(), r)
                        if c0 is None:
                            c0 = step
                        elif x.eq(log[i - 1][1]):
                            zq = z3.BitVec('zq', WW)
                            c0 = z3.substitute(z3.substitute(c0, (z3.ZeroExt(WW - x.size(), x), zq)), (zq, step))
                        else:
                            c0 = None
                            break
                    if c0 is not None:
                        q = log[-1][1]
                        E.oblige(s, q == 0, 'postcondition', 'the division went on until nothing was left')
                        c0 = z3.simplify(z3.substitute(c0, (q, z3.BitVecVal(0, q.size()))), som=True)
                        E.oblige(State(), c0 == z3.simplify(lhs, som=True), 'postcondition', 'the digits denote the value')
                        continue
                E.oblige(s, lhs == rhs, 'postcondition', 'the digits denote the value')
    return unit


def hex_unit(I, w, signed):
    def unit(ctx):
        for cw, nm in ((8, 'hexOfInt'), (16, 'whexOfInt')):
            E = ctx.mk([TU_SB])
            E.merge = False
            st = State()
            V = z3.BitVec('value', w)
            E.inputs['value'] = V
            n = w // 8 * 2 + 1
            ret = E.new_cells(st, class_size(E, 'ValueString<%s, %dULL>' % ('char' if cw == 8 else 'wchar_t', n)), 'result')
            for s, o in E.exec_fn(st, E.find_fn(r'\b%s<false, %s>\(' % (nm, I)), [ret, V]):
                cs, size = vstring(E, s, ret, cw, n)
                if cs is None:
                    continue
                E.oblige(s, size > 0, 'postcondition', 'at least one digit')
                if size > 1:
                    E.oblige(s, cs[0] != ord('0'), 'postcondition', 'no leading zero')
                for k, c in enumerate(reversed(cs)):
                    if 4 * k >= w:
                        E.oblige(s, False, 'postcondition', 'no more digits than the type has')
                        break
                    nib = z3.ZeroExt(cw - 4, z3.Extract(4 * k + 3, 4 * k, V))
                    E.oblige(s, c == z3.If(z3.ULT(nib, 10), nib + ord('0'), nib + (ord('a') - 10)), 'postcondition', 'every hexadecimal digit is that of the value')
                if 4 * size < w:
                    E.oblige(s, z3.Extract(w - 1, 4 * size, V) == 0, 'postcondition', 'no digit is missing')
    return unit


def append_unit(ctx):
    """operator<< appends exactly the operand's text to what was there"""
    for cw, C, em in ((8, 'char', 'emit_append'), (16, 'wchar_t', 'emit_wappend')):
        b = cw // 8
        bld = 'GStringBuilder<%s>' % C
        for n in (8, 11, 14, 26):
            E = ctx.mk([TU_SB])
            st = State()
            B = new_object(E, st, bld, 'builder')
            L = z3.BitVec('len', 64)
            st.assume(z3.ULE(L, 1 << 32))
            old = FArr.base(cw, 'old')
            seq_put(E, st, B.p('m_out'), new_seq(E, st, C, L, {0: old}, True, 'text'))
            VS = new_object(E, st, 'ValueString<%s, %dULL>' % (C, n), 'operand')
            arr = FArr.base(cw, 'digits')
            off, size = VS.lay['m_array']
            p = E.new_arr(st, b, {0: b}, n, 'm_array', {0: arr})
            E.subobj.setdefault(VS.ptr.oid, []).append((off, size, p.oid))
            o, m = z3.BitVec('off', 64), z3.BitVec('size', 64)
            st.assume(z3.And(z3.ULE(o, n), z3.ULE(m, n - o)))
            VS.set(st, 'm_offset', o)
            VS.set(st, 'm_size', m)
            k = z3.BitVec('k', 64)
            for s, r in E.exec_fn(st, E.find_fn(r'^%s_%d\(' % (em, n)), [B.ptr, VS.ptr]):
                q = B.seq(s, 'm_out')
                a = farrs_of(E, s, q)[0]
                E.oblige(s, bv(q.len, 64) == L + m, 'postcondition', 'the text grows by the operand')
                E.oblige(s, z3.Implies(z3.ULT(k, L), bv(a.read(k), cw) == bv(old.read(k), cw)), 'frame', 'what was there stays')
                E.oblige(s, z3.Implies(z3.ULT(k, m), bv(a.read(L + k), cw) == bv(arr.read(o + k), cw)), 'postcondition', 'the operand follows, in order')
        # characters, strings and C strings
        for sig, kind in (('(%s)' % C, 'ch'), ('(%s const*)' % C, 'cs'), ('(%sstring const&)' % ('w' if cw == 16 else ''), 'st')):
            E = ctx.mk([TU_SB])
            st = State()
            B = new_object(E, st, bld, 'builder')
            L, m, k = z3.BitVec('len', 64), z3.BitVec('size', 64), z3.BitVec('k', 64)
            st.assume(z3.And(z3.ULE(L, 1 << 32), z3.ULE(m, 1 << 32)))
            old, src = FArr.base(cw, 'old'), FArr.base(cw, 'src')
            seq_put(E, st, B.p('m_out'), new_seq(E, st, C, L, {0: old}, True, 'text'))
            if kind == 'ch':
                c = z3.BitVec('ch', cw)
                arg, src = c, FArr.const(cw, c)
                st.assume(m == 1)
            elif kind == 'cs':
                arg = E.new_arr(st, b, {0: b}, m + 1, 'cstr', {0: src.set(m, 0)})
                E.fn_overrides['cstrlen'] = lambda E, s, p, esz: m
            else:
                arg = E.new_cells(st, 32, 'string')
                seq_put(E, st, arg, new_seq(E, st, C, m, {0: src}, True, 'src'))
            for s, r in E.exec_fn(st, E.find_fn(r'^' + re.escape(bld) + r'::operator<<' + re.escape(sig)), [B.ptr, arg]):
                q = B.seq(s, 'm_out')
                a = farrs_of(E, s, q)[0]
                E.oblige(s, bv(q.len, 64) == L + m, 'postcondition', 'the text grows by the operand')
                E.oblige(s, z3.Implies(z3.ULT(k, L), bv(a.read(k), cw) == bv(old.read(k), cw)), 'frame', 'what was there stays')
                E.oblige(s, z3.Implies(z3.ULT(k, m), bv(a.read(L + k), cw) == bv(src.read(k), cw)), 'postcondition', 'the operand follows, in order')


def insert_int(I, w, signed):
    """operator<<(I) appends what gdecOfInt gives for that very value (contract at the call)"""
    def unit(ctx):
        for cw, C in ((8, 'char'), (16, 'wchar_t')):
            b = cw // 8
            bld = 'GStringBuilder<%s>' % C
            E = ctx.mk([TU_SB])
            st = State()
            B = new_object(E, st, bld, 'builder')
            L, V, k = z3.BitVec('len', 64), z3.BitVec('value', w), z3.BitVec('k', 64)
            st.assume(z3.ULE(L, 1 << 32))
            old, dig = FArr.base(cw, 'old'), FArr.base(cw, 'digits')
            seq_put(E, st, B.p('m_out'), new_seq(E, st, C, L, {0: old}, True, 'text'))
            n = w // 8 * 3 + 2
            o, m = z3.BitVec('off', 64), z3.BitVec('size', 64)
            vs = 'ValueString<%s, %dULL>' % (C, n)

            def c_dec(E, s, args, ci):
                E.oblige(s, bv(args[1], w) == V, 'precondition', 'the inserted value itself is formatted')
                R = View(E, vs, args[0])
                off, size = R.lay['m_array']
                p = E.new_arr(s, b, {0: b}, n, 'm_array', {0: dig})
                E.subobj.setdefault(args[0].oid, []).append((args[0].off + off, size, p.oid))
                s.assume(z3.And(z3.ULE(o, n), z3.ULE(m, n - o)))
                R.set(s, 'm_offset', o)
                R.set(s, 'm_size', m)
                return None
            contract(E, r'\bgdecOfInt<%s, %s>\(' % (C, I), c_dec, 'gdecOfInt<%s, %s>: the decimal digits of its argument' % (C, I))
            for s, r in E.exec_fn(st, E.find_fn(r'^' + re.escape(bld) + r'::operator<<' + re.escape('(%s)' % I)), [B.ptr, V]):
                q = B.seq(s, 'm_out')
                a = farrs_of(E, s, q)[0]
                E.oblige(s, bv(q.len, 64) == L + m, 'postcondition', 'the text grows by the digits')
                E.oblige(s, z3.Implies(z3.ULT(k, L), bv(a.read(k), cw) == bv(old.read(k), cw)), 'frame', 'what was there stays')
                E.oblige(s, z3.Implies(z3.ULT(k, m), bv(a.read(L + k), cw) == bv(dig.read(o + k), cw)), 'postcondition', 'the digits follow, in order')
    return unit


UNITS = [('append', append_unit)] + [('insert ' + I, insert_int(I, w, s)) for I, w, s in INTS if w > 8] + [('decOfInt ' + I, dec_unit(I, w, s)) for I, w, s in INTS] + [('hexOfInt ' + I, hex_unit(I, w, s)) for I, w, s in INTS]
HARNESS = ['h_d01']
RULE = 'harness: extreme values, powers of two and ten and their neighbours and random values of every integer type formatted and compared with an independent long-division formatter; random sequences of builder operands; distinct = values by hash'
