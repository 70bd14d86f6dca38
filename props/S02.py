from common import *

LR, CB = 'src/agent/LargeConsoleRead.cc', 'src/agent/Win32ConsoleBuffer.cc'
SRCS = [LR, CB]
k = z3.BitVec('k', 64)           # any cell of the result
LIMIT_CELLS = 2500               # MAX_CONSOLE_WIDTH: cells one read may ask for


def rect_obj(E, st, name, L, T, R, B):
    V = new_object(E, st, '_SMALL_RECT', name)
    lay = layout(E, '_SMALL_RECT')
    for n, v in (('Left', L), ('Top', T), ('Right', R), ('Bottom', B)):
        E.store_raw(st, Ptr(V.ptr.oid, lay[n][0]), v, 2)
    return V


def rect_get(E, st, p):
    lay = layout(E, '_SMALL_RECT')
    return [bv(E.load_raw(st, Ptr(p.oid, add64(p.off, lay[n][0])), 2, None), 16) for n in ('Left', 'Top', 'Right', 'Bottom')]


P = z3.Function('timesWidth', z3.BitVecSort(64), z3.BitVecSort(64))   # r -> r * width, see unit_lemma


def facts(st, H, W64, *rs):
    """instances of the lemmas about P for row counts in 0..H: P(H) = P(r) + P(H - r), bounds, P(0), P(1)"""
    st.assume(z3.And(P(w64(0)) == 0, P(w64(1)) == W64, z3.ULE(P(H), 2500 * 32767), z3.UGE(P(H), W64)))
    for r, h in rs:
        a, b = r + h, H - r - h
        inr = lambda x: z3.And(x >= 0, x <= 32767)
        bd = lambda x: z3.And(z3.ULE(P(x), 2500 * 32767), P(x) >= x)
        st.assume(z3.Implies(z3.And(inr(r), inr(h)), z3.And(P(r + h) == P(r) + P(h), bd(r), bd(h))))
        rest = H - r - h
        st.assume(z3.Implies(z3.And(inr(r), inr(h), inr(rest)), z3.And(P(H) == P(r) + P(h) + P(rest), z3.ULE(P(r) + P(h), P(H)))))
        st.assume(z3.Implies(z3.And(inr(a), inr(b)), z3.And(P(H) == P(a) + P(b), bd(a), bd(b))))


def mulhook(W):
    """products with the width become P; any other product of unknowns is left alone"""
    def f(E, st, a, b, w):
        for x, y in ((a, b), (b, a)):
            if w in (32, 64) and E.must(st, z3.And(y == z3.SignExt(w - 16, W), x >= 0, x <= 32767)):
                v = P(z3.SignExt(64 - w, x) if w < 64 else x)
                return z3.Extract(w - 1, 0, v) if w < 64 else v
        return None
    return f


def divhook(W):
    """a constant divided by the width: a named quotient q with 0 <= q <= c and q * width <= c"""
    def f(E, st, op, a, b, w):
        if isinstance(a, int) and 0 < a < 32767 and w == 32 and E.must(st, z3.And(b == z3.SignExt(16, W), b > 0)):
            q = fresh('quot', 32)
            q64 = z3.SignExt(32, q)
            st.assume(z3.And(q >= 0, q <= a, P(q64) <= a, P(q64) >= 0))
            st.ghost = dict(st.ghost)
            st.ghost['quot'] = q64
            return q
        return None
    return f


def unit_lemma(ctx):
    E = ctx.mk([LR])
    st = State()
    a, b, w = (z3.BitVec(n, 64) for n in 'abw')
    st.assume(z3.And(a >= 0, a <= 32767, b >= 0, b <= 32767, w >= 1, w <= 2500))
    E.oblige(st, (a + b) * w == a * w + b * w, 'lemma', 'rows times width distributes')
    c = z3.BitVec('c', 64)
    E.oblige(st, (a + b + c) * w == a * w + b * w + c * w, 'lemma', 'rows times width distributes over three parts')
    # bounds, over the integers (no wrap: 32767 * 2500 < 2^63)
    x, y = z3.Ints('x y')
    t = State()
    t.assume(z3.And(x >= 0, x <= 32767, y >= 1, y <= 2500))
    z = z3.Int('z')
    E.oblige(t, z3.Implies(z3.And(z >= 0, z < 32767), z3.And(z / y >= 0, z / y <= z, (z / y) * y <= z)), 'lemma', 'a quotient times the divisor is at most the dividend')
    E.oblige(t, x * y <= 32767 * 2500, 'lemma', 'rows times width is bounded')
    z2, z3_ = z3.Ints('u v')
    t2 = t.copy()
    t2.assume(z3.And(z2 >= 0, z3_ >= 0))
    E.oblige(t2, (x + z2) * y <= (x + z2 + z3_) * y, 'lemma', 'parts of the rows are at most all of them')
    E.oblige(t, x * y >= x, 'lemma', 'rows times width is at least the rows')
    E.oblige(t, z3.Implies(x >= 1, x * y >= y), 'lemma', 'rows times width is at least the width')


def unit_read(ctx):
    E = ctx.mk([LR])
    st = State()
    L, T, W, H = (z3.BitVec(n, 16) for n in ('left', 'top', 'width', 'height'))
    E.inputs.update(left=L, top=T, width=W, height=H)
    sx = lambda v: z3.SignExt(48, v)
    # any rectangle of a console buffer: at most 2500 wide
    st.assume(z3.And(L >= 0, T >= 0, W >= 1, W <= 2500, H >= 1, sx(L) + sx(W) <= 32767, sx(T) + sx(H) <= 32767))
    R, B = L + W - 1, T + H - 1
    mask = z3.BitVec('mask', 16)
    count = P(sx(H))
    E.mulhook = mulhook(W)
    E.divhook = divhook(W)
    facts(st, sx(H), sx(W))
    st.assume(z3.ULT(k, count))
    out = new_object(E, st, 'LargeConsoleReadBuffer', 'out')
    old = z3.BitVec('oldsize', 64)
    st.assume(z3.ULE(old, 1 << 27))
    out.set(st, 'm_data', new_seq(E, st, '_CHAR_INFO', old, {0: FArr.base(16, 'old.ch'), 2: FArr.base(16, 'old.at')}, name='data'))
    rect = rect_obj(E, st, 'readArea', L, T, R, B)
    buf = E.new_cells(st, 64, 'buffer')
    # the console's cells, numbered as the result must hold them
    sch, sat = FArr.base(16, 'con.ch'), FArr.base(16, 'con.at')
    g(st, rows=w64(0), done=w64(0))
    handler(E, r'^isAtLeastWindows8\(', lambda E, s, a, ci: z3.BitVec('win8', 1), 'isAtLeastWindows8: either')
    handler(E, r'^trace\(', lambda E, s, a, ci: None, False)
    win8 = z3.BitVec('win8', 1) == 1

    def c_read(E, s, args, ci):
        rl, rt, rr, rb = rect_get(E, s, args[1])
        rows, done = s.ghost['rows'], s.ghost['done']
        h = fresh('rows', 64)
        s.assume(h == sx(rb) - sx(rt) + 1)
        E.oblige(s, args[0].oid == buf.oid, 'precondition', 'reads the given buffer')
        E.oblige(s, z3.And(rl == L, rr == R), 'precondition', 'each read covers the columns of the rectangle')
        E.oblige(s, sx(rt) == sx(T) + rows, 'precondition', 'reads continue at the first row not yet read')
        E.oblige(s, z3.And(h >= 1, sx(rb) <= sx(B)), 'precondition', 'no row outside the rectangle is read')
        n = P(h)
        facts(s, sx(H), sx(W), (rows, h))
        if 'quot' in s.ghost:
            q = s.ghost['quot']
            s.assume(z3.Implies(z3.And(h >= 0, h <= q), z3.And(P(q) == P(h) + P(q - h), P(q - h) >= 0)))
        E.oblige(s, z3.And(n > 0, rows + h <= sx(H)), 'precondition', 'at least one row, within the rectangle')
        E.oblige(s, z3.Or(win8, h == 1, n <= LIMIT_CELLS), 'precondition', 'a single read stays within the size the console accepts')
        q = out.seq(s, 'm_data')
        p = args[2]
        E.oblige(s, p.oid == q.oid, 'memory', 'the cells go into the result')
        d, r = divmod_lin(p.off, 4)
        E.oblige(s, bv(d, 64) == done if r == 0 else False, 'precondition', 'the rows go to their place in the result')
        E.oblige(s, z3.ULE(done + n, count), 'memory', 'nothing outside the result is written')
        E.oblige(s, z3.ULE(count, bv(q.len, 64)), 'memory', 'the result has room for the rectangle')
        f = farrs_of(E, s, q)
        w = E.wobj(s, Ptr(q.oid, 0))
        w.fields = {0: (2, f[0].copy(done, n, sch, done)), 2: (2, f[2].copy(done, n, sat, done))}
        g(s, rows=rows + h, done=done + n)
        return None
    handler(E, r'^Win32ConsoleBuffer::read\(', c_read, 'Win32ConsoleBuffer::read fills the cells of the rectangle, row by row (proved in unit read)')

    def cell(s, j, attr):
        f = farrs_of(E, s, out.seq(s, 'm_data'))
        return z3.And(bv(f[0].read(j), 16) == bv(sch.read(j), 16), bv(f[2].read(j), 16) == attr)

    def inv_pieces(c):
        s = c.st
        rows, done = s.ghost['rows'], s.ghost['done']
        cur = z3.SignExt(32, bv(c['curLine'], 32))
        return [('rows read so far', cur == sx(T) + rows), ('not past the rectangle', z3.And(rows >= 0, rows <= sx(H))),
                ('cells read so far', done == P(rows)),
                ('every cell read is in its place', z3.Implies(z3.ULT(k, done), cell(s, k, bv(sat.read(k), 16)))),
                ('room', z3.ULE(count, bv(out.seq(s, 'm_data').len, 64))),
                ('rectangle', z3.And([a == b for a, b in zip(rect_get(E, s, out.p('m_rect')), (L, T, R, B))]))]

    def inv_mask(c):
        s = c.st
        i = bv(c['i'], 64)
        return [('within the result', z3.ULE(i, count)), ('everything was read', s.ghost['done'] == count),
                ('attributes masked so far', cell(s, k, z3.If(z3.ULT(k, i), bv(sat.read(k), 16) & mask, bv(sat.read(k), 16)))),
                ('room', z3.ULE(count, bv(out.seq(s, 'm_data').len, 64))),
                ('rectangle', z3.And([a == b for a, b in zip(rect_get(E, s, out.p('m_rect')), (L, T, R, B))]))]
    l1 = LoopSpec('pieces', inv_pieces, fn=r'^largeConsoleRead', vars={'curLine': ('i', 32)}, decreases=lambda c: sx(B) + 1 - z3.SignExt(32, bv(c['curLine'], 32)),
                  on_head=lambda c: facts(c.st, sx(H), sx(W), (c.st.ghost['rows'], w64(1)), (w64(0), c.st.ghost['rows'])))
    l1.pred = loop_calls(r'^Win32ConsoleBuffer::read')
    l2 = LoopSpec('mask', inv_mask, fn=r'^largeConsoleRead', vars={'i': ('i', 64)}, decreases=lambda c: count - bv(c['i'], 64))
    E.loops = [l1, l2]
    E.targets.append('largeConsoleRead')
    for s, o in E.exec_fn(st, E.find_fn(r'^largeConsoleRead\('), [out.ptr, buf, rect.ptr, mask]):
        if not isinstance(o, Ret):
            continue
        E.oblige(s, s.ghost['done'] == count, 'postcondition', 'every cell of the rectangle was read')
        E.oblige(s, cell(s, k, bv(sat.read(k), 16) & mask), 'postcondition', 'each cell is the console\'s, its attribute masked')
        E.oblige(s, z3.And([a == b for a, b in zip(rect_get(E, s, out.p('m_rect')), (L, T, R, B))]), 'postcondition', 'the result knows its rectangle')
        E.oblige(s, bv(out.get(s, 'm_rectWidth'), 32) == z3.SignExt(16, W), 'postcondition', 'the result knows its width')


def unit_linedata(ctx):
    E = ctx.mk([LR, 'src/agent/Scraper.cc'])
    st = State()
    L, T, W, H = (z3.BitVec(n, 16) for n in ('left', 'top', 'width', 'height'))
    line = z3.BitVec('line', 32)
    sx = lambda v: z3.SignExt(48, v)
    st.assume(z3.And(L >= 0, T >= 0, W >= 1, W <= 2500, H >= 1, sx(L) + sx(W) <= 32767, sx(T) + sx(H) <= 32767))
    R, B = L + W - 1, T + H - 1
    count = P(sx(H))
    E.mulhook = mulhook(W)
    out = new_object(E, st, 'LargeConsoleReadBuffer', 'out')
    n = z3.BitVec('n', 64)
    st.assume(z3.And(z3.UGE(n, count), z3.ULE(n, 1 << 28)))
    out.set(st, 'm_data', new_seq(E, st, '_CHAR_INFO', n, {0: FArr.base(16, 'ch'), 2: FArr.base(16, 'at')}, name='data'))
    r = rect_obj(E, st, 'r', L, T, R, B)
    E.memcpy(st, out.p('m_rect'), r.ptr, 8)
    out.set(st, 'm_rectWidth', z3.SignExt(16, W))
    handler(E, r'^trace\(', lambda E, s, a, ci: None, False)
    handler(E, r'^SmallRect::toString', lambda E, s, a, ci: (seq_put(E, s, a[0], new_seq(E, s, 'char', 0, isstr=True)), None)[1], 'SmallRect::toString for a trace message')
    l64 = z3.SignExt(32, line)
    facts(st, sx(H), sx(W), (l64 - sx(T), w64(1)))
    ok = z3.And(l64 >= sx(T), l64 <= sx(B))
    g(st, aborted=z3.BoolVal(False))

    def h_abort(E, s, a, ci):
        E.oblige(s, z3.Not(ok), 'postcondition', 'a row of the rectangle is never refused')
        return NoReturn()
    handler(E, r'^abort$', h_abort, 'abort ends the process')
    for f in ('lineData',):
        for s, o in E.exec_fn(st.copy(), E.find_fn(r'^LargeConsoleReadBuffer::%s\(' % f), [out.ptr, line]):
            if not isinstance(o, Ret):
                continue
            E.oblige(s, ok, 'postcondition', 'a row outside the rectangle is refused')
            E.oblige(s, o.v.oid == out.seq(s, 'm_data').oid, 'postcondition', 'points into the result')
            d, rr = divmod_lin(o.v.off, 4)
            E.oblige(s, bv(d, 64) == P(l64 - sx(T)) if rr == 0 else False, 'postcondition', 'points to the row\'s first cell')
            E.oblige(s, z3.ULE(bv(d, 64) + sx(W), count), 'postcondition', 'the whole row lies in the result')


def unit_bufread(ctx):
    E = ctx.mk([CB])
    st = State()
    L, T, R, B = (z3.BitVec(n, 16) for n in ('L', 'T', 'R', 'B'))
    st.assume(z3.And(L >= 0, T >= 0, R >= L, B >= T, R < 32767, B < 32767))
    buf = new_object(E, st, 'Win32ConsoleBuffer', 'buffer')
    buf.set(st, 'm_conout', Ptr(0, 0x70))
    n = z3.BitVec('n', 64)
    st.assume(z3.ULE(n, 1 << 31))
    data = E.new_arr(st, 4, {0: 2, 2: 2}, n, 'data')
    r = rect_obj(E, st, 'rect', L, T, R, B)
    g(st, calls=0)

    def chk(what):
        def f(E, s, args, ci):
            E.oblige(s, hv(args[0]) == 0x70, 'precondition', 'the buffer\'s own handle')
            E.oblige(s, args[1].oid == data.oid and E.must(s, bv(args[1].off, 64) == 0), 'precondition', 'the caller\'s cells')
            E.oblige(s, bv(args[2], 32) == z3.Concat(B - T + 1, R - L + 1), 'precondition', 'the cells have the size of the rectangle')
            E.oblige(s, bv(args[3], 32) == 0, 'precondition', 'the cells start at the first one')
            E.oblige(s, z3.And([a == b for a, b in zip(rect_get(E, s, args[4]), (L, T, R, B))]), 'precondition', 'the console region is the rectangle')
            E.oblige(s, args[4].oid != r.ptr.oid, 'frame', 'the caller\'s rectangle is not passed for writing')
            g(s, calls=s.ghost['calls'] + 1)
            return z3.BitVec(what, 32)
        return f
    handler(E, r'^ReadConsoleOutputW$', chk('rok'), 'ReadConsoleOutputW')
    handler(E, r'^WriteConsoleOutputW$', chk('wok'), 'WriteConsoleOutputW')
    handler(E, r'^isTracingEnabled', lambda E, s, a, ci: 0, 'tracing off')
    handler(E, r'^trace\(', lambda E, s, a, ci: None, False)
    for f in ('read', 'write'):
        for s, o in E.exec_fn(st.copy(), E.find_fn(r'^Win32ConsoleBuffer::%s\(SmallRect const&.*\)$' % f), [buf.ptr, r.ptr, data]):
            if isinstance(o, Ret):
                E.oblige(s, s.ghost['calls'] == 1, 'postcondition', 'one console call')


UNITS = [('lemma', unit_lemma), ('largeConsoleRead', unit_read), ('lineData', unit_linedata), ('read', unit_bufread)]
HARNESS = [('h_s02', []), ('h_s02', ['--mode', 'win8'])]
RULE = 'harness: rectangles of every shape read from a synthetic console; distinct = rectangles by hash'
