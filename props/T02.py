from terminal import *

FIX = {1: 0x2554, 2: 0x2557, 3: 0x255A, 4: 0x255D, 5: 0x2551, 6: 0x2550, 0x1b: 0x3f}


def fix_spec(c):
    r = c
    for k, v in FIX.items():
        r = z3.If(c == k, z3.BitVecVal(v, 32), r)
    return r


def z32(x):
    return z3.ZeroExt(16, bv(x, 16))


class Row:
    """a console row of `width` cells: chars and attributes"""

    def __init__(self, E, st, width, name='lineData'):
        self.ch, self.at = FArr.base(16, name + '.ch'), FArr.base(16, name + '.at')
        self.w = width
        self.ptr = E.new_arr(st, 4, {0: 2, 2: 2}, width, name, {0: self.ch, 2: self.at})

    def c(self, i):
        return bv(self.ch.read(i), 16)

    def a(self, i):
        return bv(self.at.read(i), 16)

    def full(self, i):
        """cells i,i+1 are the two halves of one full-width character"""
        return z3.And(sl(add64(i, 1), self.w), self.a(i) & 0x100 != 0, self.a(add64(i, 1)) & 0x200 != 0, self.c(i) == self.c(add64(i, 1)))

    def scan(self, i):
        """(cells, code): the character starting at cell i.  A high surrogate
        followed by a low surrogate is one code point; a lone surrogate is '?'"""
        B = lambda v: z3.BitVecVal(v, 32)
        w1 = z3.If(self.full(i), z3.BitVecVal(2, 64), z3.BitVecVal(1, 64))
        j = add64(i, w1)
        hi, lo = self.c(i), z3.If(self.full(i), self.c(add64(i, 2)), self.c(add64(i, 1)))
        fullj = z3.If(self.full(i), self.full(add64(i, 2)), self.full(add64(i, 1)))
        sur = hi & 0xF800 == 0xD800
        pair = z3.And(hi & 0xFC00 == 0xD800, sl(j, self.w), lo & 0xFC00 == 0xDC00)
        cells = z3.If(pair, w1 + z3.If(fullj, z3.BitVecVal(2, 64), z3.BitVecVal(1, 64)), w1)
        code = z3.If(pair, 0x10000 + (z32(hi & 0x3FF) << 10) + z32(lo & 0x3FF), z3.If(sur, B(0x3f), z32(hi)))
        return cells, code


class OldRow(Row):
    def __init__(self, data, n, E, st):
        self.data, self.n = data, n
        self.ch, self.at = FArr.base(16, 'old.ch'), FArr.base(16, 'old.at')
        self.w = z3.BitVec('old.width', 64)
        st.assume(z3.And(self.w >= n, self.w <= 1 << 20))

    def c(self, i):
        return z3.If(z3.And(bv(i, 64) >= 0, bv(i, 64) < self.n), bv(self.data[0].read(i), 16), bv(self.ch.read(i), 16))

    def a(self, i):
        return z3.If(z3.And(bv(i, 64) >= 0, bv(i, 64) < self.n), bv(self.data[2].read(i), 16), bv(self.at.read(i), 16))


def sl(a, b):
    return bv(a, 64) < bv(b, 64)


def unit_scan(ctx):
    """scanUnicodeScalarValue against the definition above, in bounds for every width"""
    E = ctx.mk([SRC])
    st = State()
    f = E.find_fn(r'scanUnicodeScalarValue\(')
    w = z3.BitVec('width', 32)
    E.inputs['width'] = w
    st.assume(z3.And(w >= 1, w <= 1 << 20))
    R = Row(E, st, z3.SignExt(32, w))
    for i in range(4):
        E.inputs['c%d' % i] = R.c(i)
        E.inputs['a%d' % i] = R.a(i)
    cells = E.new_cells(st, 4, 'cells')
    code = E.new_cells(st, 4, 'code')
    for s, o in E.exec_fn(st, f, [R.ptr, w, cells, code]):
        sc, sv = R.scan(0)
        n = bv(E.load_raw(s, cells, 4, None), 32)
        E.oblige(s, z3.SignExt(32, n) == sc, 'postcondition', 'cell count of the character')
        E.oblige(s, bv(E.load_raw(s, code, 4, None), 32) == sv, 'postcondition', 'code point of the character')
        E.oblige(s, z3.And(n >= 1, n <= w, n <= 4), 'postcondition', 'progress, within the row')
        E.oblige(s, z3.Implies(z3.And(sv == 0x20, sc == 2), z3.And(R.c(1) == 0x20, R.a(1) & 0x200 != 0)), 'lemma', 'a two-cell space is two space cells')
        E.oblige(s, z3.Implies(sv == 0x20, z3.And(sc <= 2, R.c(0) == 0x20)), 'lemma', 'a space is a space cell')


def unit_fix(ctx):
    E = ctx.mk([SRC])
    st = State()
    f = E.find_fn(r'fixSpecialCharacters\(')
    c = z3.BitVec('ch', 32)
    E.inputs['ch'] = c
    for s, o in E.exec_fn(st, f, [c]):
        E.oblige(s, bv(o.v, 32) == fix_spec(c), 'postcondition', 'control cells are mapped as specified')
        E.oblige(s, bv(o.v, 32) != 0x1b, 'postcondition', 'no cell yields an escape character')


def setup_line(ctx):
    E = ctx.mk([SRC])
    st = State()
    T = new_terminal(E, st)
    w = z3.BitVec('width', 32)
    w64 = z3.SignExt(32, w)
    st.assume(z3.And(w >= 1, w <= 1 << 15))
    cur = z3.BitVec('cursorColumn', 32)
    line = z3.BitVec('line', 64)
    st.assume(z3.And(cur >= -1, cur < w, line >= 0, line < 1 << 31, T.m_remoteLine >= 0, T.m_remoteLine < 1 << 31))
    st.assume(z3.And(T.m_remoteColumn >= 0, T.m_remoteColumn <= 1 << 15))
    st.assume(z3.Implies(T.m_lineDataValid, T.datalen == z3.SignExt(32, T.m_remoteColumn)))
    st.assume(T.datalen <= 1 << 15)
    R = Row(E, st, w64)
    E.inputs.update(width=w, cursorColumn=cur, line=line, plain=bv(T.plain, 8), remoteColumn=T.m_remoteColumn, datalen=T.datalen,
                    valid=bv(T.m_lineDataValid, 8), color=bv(T.color, 8), remoteLine=T.m_remoteLine)
    k = z3.BitVec('k', 64)       # an arbitrary cell index
    j0 = z3.BitVec('j', 64)      # an arbitrary cell index of the row shown before
    E.j0 = j0
    np = z3.Not(boolv(T.plain))
    g = st.ghost
    g['col'] = z3.SignExt(32, T.m_remoteColumn)     # cell where the next glyph will appear
    g['ccol'] = T.m_remoteColor                     # colour the terminal is in at that point
    g['hidden'] = T.m_cursorHidden
    g['snap_len'] = bv(0, 64)
    g['snap_col'] = z3.SignExt(32, T.m_remoteColumn)
    g['tbase'] = z3.SignExt(32, T.m_remoteColumn)   # first cell not known to show its content
    g['erased'] = z3.BoolVal(False)
    g['written'] = 0
    g['matched'] = z3.BoolVal(False)                # the reused part equals the new row
    E.SCAN = {}

    # -- contracts of callees
    def h_move(E, st, args, ci):
        ln = bv(args[1], 64)
        out = []
        for s, same_ in E.fork(st, ln == bv(T.get(st, 'm_remoteLine'), 64)):
            if not same_:
                T.set(s, 'm_remoteLine', ln)
                T.set(s, 'm_remoteColumn', 0)
                T.set(s, 'm_lineDataValid', 1)
                q = T.seq(s, 'm_lineData')
                with_len(E, s, T.p('m_lineData'), q, 0, farrs_of(E, s, q))
                hd = z3.Or(s.ghost['hidden'], np)
                T.set(s, 'm_cursorHidden', bv(hd, 8))
                s.ghost = dict(s.ghost)
                s.ghost['hidden'] = hd
                s.ghost['col'] = bv(0, 64)
                s.ghost['tbase'] = bv(0, 64)
                s.ghost['snap_col'] = bv(0, 64)
            out.append((s, Ret(None)))
        return Outs(out)
    contract(E, r'^Terminal::moveTerminalToLine\(', h_move, 'Terminal::moveTerminalToLine (verified by T03)')

    def h_color(E, st, args, ci):
        p = args[0]
        q = seq_get(E, st, p)
        n = fresh('sgrlen', 64)
        st.assume(z3.And(n >= 3, n <= 64))
        f = farrs_of(E, st, q)
        src = FArr.base(8, 'sgr')
        ns = with_len(E, st, p, q, add64(q.len, n), {0: f[0].copy(q.len, n, src, 0)})
        E.oblige(st, boolv(T.color), 'postcondition', 'colour sequences only when colour output is enabled')
        st.ghost = dict(st.ghost)
        st.ghost['ccol'] = bv(args[1], 32)
        st.ghost['snap_len'] = bv(ns.len, 64)
        st.ghost['snap_col'] = st.ghost['col']
        return None
    contract(E, r'outputSetColor\(', h_color, 'outputSetColor (verified by T01)')

    def h_scan(E, st, args, ci):
        if not (isinstance(args[0], Ptr) and args[0].oid == R.ptr.oid and len(args) == 4):
            raise Unsupported('scan of another row')
        i, r = divmod_lin(args[0].off, 4)
        E.oblige(st, z3.And(bv(args[1], 32) >= 1, z3.SignExt(32, bv(args[1], 32)) + bv(i, 64) == w64), 'precondition', 'scanUnicodeScalarValue sees the rest of the row')
        sc, sv = R.scan(i)
        n, v = fresh('cells', 32), fresh('code', 32)
        st.assume(z3.And(z3.SignExt(32, n) == sc, v == sv, n >= 1, n <= 4, bv(i, 64) + sc <= w64))
        E.store_raw(st, args[2], n, 4)
        E.store_raw(st, args[3], v, 4)
        return None
    contract(E, r'scanUnicodeScalarValue\(', h_scan, 'scanUnicodeScalarValue (verified by T02 scan)')

    def h_enc(E, st, args, ci):
        c = bv(args[1], 32)
        n, bs = utf8_len(c), utf8_bytes(c)
        for i in range(4):
            old = E.load(st, Ptr(args[0].oid, add64(args[0].off, i)), ('i', 8), ci.mod)
            E.store(st, Ptr(args[0].oid, add64(args[0].off, i)), z3.If(z3.UGT(n, i), bs[i], bv(old, 8)), ('i', 8), ci.mod)
        r = fresh('enclen', 32)
        st.assume(z3.And(r == n, z3.ULE(r, 4)))
        return r
    contract(E, r'encodeUtf8\(', h_enc, 'encodeUtf8 (verified by U01)')

    def h_fix(E, st, args, ci):
        return fix_spec(bv(args[0], 32))
    contract(E, r'fixSpecialCharacters\(', h_fix, 'fixSpecialCharacters (verified by T02 fix)')

    def h_memcmp(E, st, args, ci):
        r = fresh('memcmp', 32)
        a, b, n = args
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported('memcmp')
        for p in (a, b):
            if p.oid:
                E.inb_sym(st, E.getobj(st, p, 'read'), p.off, n, 'memcmp')
        da, db, dn = divmod_lin(a.off, 4), divmod_lin(b.off, 4), divmod_lin(n, 4)
        if None in (da, db, dn) or da[1] or db[1] or dn[1]:
            # comparison of something else: nothing is known from it
            return r
        oa, ob = st.mem[a.oid], st.mem[b.oid]
        if set(oa.fields) != {0, 2} or set(ob.fields) != {0, 2}:
            raise Unsupported('memcmp')
        for k_ in (k, j0, j0 + 1, j0 + 2, j0 + 3, bv(T.datalen, 64) - 1):
            eqk = z3.And(*[bv(oa.fields[f][1].read(add64(k_, da[0])), 16) == bv(ob.fields[f][1].read(add64(k_, db[0])), 16) for f in (0, 2)])
            st.assume(z3.Implies(z3.And(r == 0, z3.ULT(k_, bv(dn[0], 64))), eqk))
        return r
    handler(E, r'^memcmp$', h_memcmp, 'C memcmp')

    # -- what the terminal does
    def blank(s, i):
        return R.c(i) == 0x20

    def token_glyph(E, st, n, src, i0, total):
        g = st.ghost
        col = g['col']
        sc, sv = R.scan(col)
        fv = fix_spec(sv)
        E.oblige(st, sl(col, w64), 'postcondition', 'no glyph beyond the end of the row')
        st.assume(sl(col, w64))
        spec = z3.If(is_scalar(fv), fv, z3.BitVecVal(0x3f, 32))
        ul, ub = utf8_len(spec), utf8_bytes(spec)
        E.oblige(st, bv(n, 64) == z3.ZeroExt(32, ul), 'postcondition', 'the glyph is exactly one UTF-8 encoded character')
        for j in range(4):
            E.oblige(st, z3.Or(z3.ULE(ul, j), bv(src.read(add64(i0, j)), 8) == ub[j]), 'postcondition', 'glyph byte %d is the UTF-8 form of the cell\'s character' % j)
        E.oblige(st, z3.Implies(boolv(T.color), z3.SignExt(32, g['ccol']) == z3.ZeroExt(48, R.a(col) & MASK)) if g['ccol'].size() == 32 else True, 'postcondition', 'the glyph is output in its cell\'s colour')
        sp = sv == 0x20
        # lemmas proved in unit_scan, instantiated at this cell
        st.assume(z3.Implies(z3.And(sp, sc == 2), z3.And(R.c(add64(col, 1)) == 0x20, R.a(add64(col, 1)) & 0x200 != 0)))
        st.assume(z3.Implies(sp, z3.And(sc <= 2, R.c(col) == 0x20)))
        st.assume(z3.And(sc >= 1, sc <= 4, col + sc <= w64))
        g['col'] = col + sc
        out = z3.Not(sp)
        g['snap_len'] = z3.If(out, bv(total, 64), g['snap_len'])
        g['snap_col'] = z3.If(out, col + sc, g['snap_col'])

    def token_erase(E, st, col):
        E.oblige(st, np, 'postcondition', 'no escape sequence in plain mode')
        E.oblige(st, sl(col, w64), 'postcondition', 'the erase is sent before the cursor passes the last cell')
        st.ghost['erased'] = z3.BoolVal(True)

    def seqhook(E, st, p, what, data):
        st.ghost = dict(st.ghost)
        if what == 'clear':
            return
        if what != 'append':
            raise Unsupported('line buffer %s' % what)
        at, n, src, i0 = data
        q = seq_get(E, st, p)
        if isinstance(n, int) and n == 4:
            bs = [src.read(add64(i0, j)) for j in range(4)]
            bs = [norm(z3.simplify(b), 8) if is_sym(b) else b for b in bs]
            if all(isinstance(b, int) for b in bs) and bytes(bs) == b'\x1b[0K':
                token_erase(E, st, st.ghost['col'])
                return
        if isinstance(n, int) and n == 3:
            bs = [src.read(add64(i0, j)) for j in range(3)]
            if all(isinstance(b, int) for b in bs) and bytes(bs) == b'\x1b[K':
                token_erase(E, st, st.ghost['col'])
                return
        token_glyph(E, st, n, src, i0, q.len)
    E.fn_overrides['seqhook'] = seqhook

    def h_write(E, st, args, ci):
        p = args[1]
        st.ghost = dict(st.ghost)
        g = st.ghost
        o = st.mem.get(p.oid)
        b = None
        if p.oid in E.oid_global:
            b = const_bytes(E, st, p, args[2] if len(args) == 3 else None)
        if b is not None:
            i = 0
            while i < len(b):
                if b[i:i + 6] == b'\x1b[?25l' or b[i:i + 6] == b'\x1b[?25h':
                    E.oblige(st, np, 'postcondition', 'no escape sequence in plain mode')
                    g['hidden'] = z3.BoolVal(b[i + 5:i + 6] == b'l')
                    i += 6
                elif b[i:i + 4] == b'\x1b[0K':
                    token_erase(E, st, g['col'])
                    i += 4
                elif b[i:i + 1] == b'\r':
                    g['col'] = g['tbase'] = g['snap_col'] = bv(0, 64)
                    i += 1
                elif b[i:i + 1] == b'\n':
                    E.oblige(st, boolv(T.plain), 'postcondition', 'the row is only left in plain mode')
                    i += 1
                else:
                    E.oblige(st, False, 'postcondition', 'unexpected output %r' % b)
                    i += 1
            return None
        wl = T.seq(st, 'm_termLineWorkingBuffer')
        if len(args) != 3 or p.oid != wl.oid:
            raise Unsupported('write of unknown text')
        E.oblige(st, eq64(p.off, 0) if is_sym(eq64(p.off, 0)) else bool(eq64(p.off, 0)), 'postcondition', 'the row is sent from its start')
        E.oblige(st, bv(args[2], 64) == g['snap_len'], 'postcondition', 'everything up to the last visible cell or colour change is sent, and only trailing blanks are not')
        E.oblige(st, z3.Implies(z3.And(np, bv(cur, 32) != -1, g['snap_col'] > z3.SignExt(32, cur)), g['hidden']), 'postcondition', 'the cursor is hidden when text runs past it')
        E.oblige(st, g['written'] == 0, 'postcondition', 'the row is sent once')
        g['written'] = 1
        g['col'] = g['snap_col']
        return None
    handler(E, r'^NamedPipe::write\(', h_write, 'NamedPipe::write appends the bytes to the output stream (verified by N01)')

    def kprop(g):
        # the arbitrary cell k: if skipped so far, it is a blank that shows the terminal's colour
        return z3.Implies(z3.And(g['snap_col'] <= k, k < g['col']), z3.And(R.c(k) == 0x20, z3.Or(z3.Not(boolv(T.color)), R.a(k) & 0x200 != 0, z3.ZeroExt(16, R.a(k) & MASK) == g['ccol'])))

    def inv(c):
        g = c.st.ghost
        q = T.seq(c.st, 'm_termLineWorkingBuffer')
        ld = T.seq(c.st, 'm_lineData')
        return [('loop column is the terminal column', z3.SignExt(32, bv(c['i'], 32)) == g['col']),
                ('column in range', z3.And(g['snap_col'] >= 0, g['snap_col'] <= g['col'], g['col'] <= z3.If(bv(ld.len, 64) > w64, bv(ld.len, 64), w64), bv(ld.len, 64) <= g['snap_col'])),
                ('trimmed cell count is the last needed cell', z3.SignExt(32, bv(c['trimmedCellCount'], 32)) == g['snap_col']),
                ('trimmed length is the last needed byte', bv(c['trimmedLineLength'], 64) == g['snap_len']),
                ('needed bytes exist', z3.And(z3.ULE(g['snap_len'], bv(q.len, 64)), z3.ULE(bv(q.len, 64), 80 * g['col']))),
                ('remembered colour is the terminal\'s', bv(T.get(c.st, 'm_remoteColor'), 32) == g['ccol']),
                ('erase sent early only for a full row', z3.Implies(b8(c['alreadyErasedLine']), z3.And(g['col'] == w64, g['snap_col'] == w64))),
                ('a full row has been erased already', z3.Implies(z3.And(np, g['snap_col'] == w64), b8(c['alreadyErasedLine']))),
                ('erase flag tells the truth', z3.Implies(np, b8(c['alreadyErasedLine']) == g['erased'])),
                ('skipped cells are blank', kprop(g))]
    E.loops = [LoopSpec('cells', inv, vars={'i': ('i', 32), 'trimmedCellCount': ('i', 32), 'trimmedLineLength': ('i', 64), 'alreadyErasedLine': ('i', 8)}, fn=r'^Terminal::sendLine',
                        decreases=lambda c: w64 - z3.SignExt(32, bv(c['i'], 32)))]
    E.ghost_width = {}
    return E, st, T, R, w64, line, cur, k, np, kprop


def unit_sendline(ctx):
    E, st, T, R, w64, line, cur, k, np, kprop = setup_line(ctx)
    f = E.find_fn(r'^Terminal::sendLine\(')
    old = OldRow(T.data, bv(T.datalen, 64), E, st)
    n = 0
    for s, o in E.exec_fn(st, f, [T.ptr, line, R.ptr, z3.Extract(31, 0, w64), cur]):
        n += 1
        g = s.ghost
        E.oblige(s, g['written'] == 1, 'postcondition', 'the row is sent')
        E.oblige(s, bv(T.get(s, 'm_remoteLine'), 64) == line, 'postcondition', 'the terminal is on the requested line')
        E.oblige(s, z3.SignExt(32, bv(T.get(s, 'm_remoteColumn'), 32)) == g['snap_col'], 'postcondition', 'remembered column is the cursor column')
        E.oblige(s, bv(T.get(s, 'm_remoteColor'), 32) == g['ccol'], 'postcondition', 'remembered colour is the terminal\'s')
        E.oblige(s, z3.Implies(np, b8(T.get(s, 'm_cursorHidden')) == g['hidden']), 'postcondition', 'remembered visibility is the terminal\'s')
        E.oblige(s, z3.Implies(np, g['erased']), 'postcondition', 'the rest of the row is erased')
        E.oblige(s, z3.Implies(z3.And(g['snap_col'] <= k, k < w64), z3.And(R.c(k) == 0x20, z3.Or(z3.Not(boolv(T.color)), R.a(k) & 0x200 != 0, z3.ZeroExt(16, R.a(k) & MASK) == g['ccol']))), 'postcondition', 'every cell not sent is a blank in the erase colour')
        ld = T.seq(s, 'm_lineData')
        E.oblige(s, bv(ld.len, 64) == g['snap_col'], 'postcondition', 'remembered row content has one entry per cell shown')
        fa = farrs_of(E, s, ld)
        same_ = z3.And(bv(fa[0].read(k), 16) == R.c(k), bv(fa[2].read(k), 16) == R.a(k))
        E.oblige(s, z3.Implies(z3.And(k >= 0, k < g['snap_col']), same_), 'postcondition', 'every cell shown (kept or sent) is the row\'s cell')
        E.oblige(s, b8(T.get(s, 'm_lineDataValid')), 'postcondition', 'the row content is known')
        # the characters already on the terminal are the new row's characters:
        # old = the row they were read from (unknown beyond the kept part)
        kept = z3.And(g['tbase'] > 0, bv(T.m_lineDataValid, 8) != 0)
        oc, osv = old.scan(E.j0)
        nc, nsv = R.scan(E.j0)
        E.oblige(s, z3.Implies(z3.And(kept, E.j0 >= 0, E.j0 < T.datalen, E.j0 + oc <= T.datalen), z3.And(oc == nc, osv == nsv)), 'postcondition', 'every character kept from the previous output is a character of the new row')
    E.oblige(st, n > 0, 'vacuity', 'sendLine returns')


UNITS = [('scan', unit_scan), ('fix', unit_fix), ('sendLine', unit_sendline)]
DEPS = ['T01', 'U01', ('T03', ['moveTerminalToLine'], True)]
HARNESS = [('h_term', ['--mode', 't02'])]
