from agentcc import *
from libcc import lit_at

SCR = 'src/agent/Scraper.cc'
SRCS = [SCR]
LINES = 3000                    # BUFFER_LINE_COUNT
MARK, MARGIN = 16, 200          # SYNC_MARKER_LEN, SYNC_MARKER_MARGIN
A64 = z3.BitVecSort(64)
CH = z3.Function('console.char', A64, A64, z3.BitVecSort(16))      # the console's cells when it is read: (row, column)
AT = z3.Function('console.attr', A64, A64, z3.BitVecSort(16))
LOOK = z3.Function('look', A64, z3.BitVecSort(32))                  # what a console row looks like; equal looks are what ConsoleLine calls unchanged (S01)
SLOT = z3.Function('slot', A64, A64)                                # line % 3000
UNSET, BLANK = z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)
v = z3.BitVec('v', 64)          # any line, in the numbering the terminal gets
sx16 = lambda x: z3.SignExt(48, bv(x, 16))
sx32 = lambda x: z3.SignExt(32, bv(x, 32))


class Info:
    """a console's own description of itself"""

    def __init__(self, E, st, name, sane=True):
        self.p = E.new_cells(st, 24, name)
        n = ('X', 'Y', 'cx', 'cy', 'attr', 'wl', 'wt', 'wr', 'wb', 'mx', 'my')
        for i, m in enumerate(n):
            x = z3.BitVec(name + '.' + m, 16)
            setattr(self, m, sx16(x))
            E.store_raw(st, padd(self.p, 2 * i), x, 2)
        self.raw = {m: z3.BitVec(name + '.' + m, 16) for m in n}
        self.ok = z3.And(self.X >= 1, self.Y >= 1, self.wl >= 0, self.wl <= self.wr, self.wr < self.X, self.wt >= 0, self.wt <= self.wb, self.wb < self.Y,
                         self.cx >= 0, self.cx < self.X, self.cy >= 0, self.cy < self.Y)
        if sane:
            st.assume(self.ok)


def exact_minmax(E):
    """std::min, std::max and their result by value"""
    def f(E, s, a, ci):
        m = re.search(r'std::(min|max)<(short|int|long|long long)>', ci.dn)
        w = {'short': 2, 'int': 4, 'long': 4, 'long long': 8}[m.group(2)]
        x, y = (bv(E.load_raw(s, q, w, None), 8 * w) for q in a[:2])
        p = E.new_cells(s, w, 'minmax')
        E.store_raw(s, p, z3.If(y < x, y, x) if m.group(1) == 'min' else z3.If(x < y, y, x), w)
        return p
    handler(E, r'^(short|int|long|long long) const& std::(min|max)<', f, 'std::min, std::max')


def slot_hook(E, line=None):
    """line % 3000 by name; what is used of it is proved in the lemma unit"""
    def f(E, s, op, a, b, w):
        if w != 64 or not isinstance(b, int) or b != LINES:
            return None
        E.oblige(s, a >= 0, 'memory', 'a line number is not negative')
        know_slot(s, a, line)
        return SLOT(a)
    E.remhook = f


def know_slot(s, a, b=None):
    s.assume(z3.And(SLOT(a) >= 0, SLOT(a) < LINES))
    b = v if b is None else b
    s.assume(z3.And(SLOT(b) >= 0, SLOT(b) < LINES))
    s.assume(z3.Implies(z3.And(a >= 0, b > a, b - a < LINES), SLOT(a) != SLOT(b)))
    s.assume(z3.Implies(z3.And(b >= 0, a > b, a - b < LINES), SLOT(a) != SLOT(b)))


def setup(ctx):
    E = ctx.mk([SCR])
    st = State()
    exact_minmax(E)
    S = new_object(E, st, 'Scraper', 'scraper')
    E.S = S
    C = new_object(E, st, 'Win32Console', 'console')
    E.C = C
    S.set(st, 'm_console', C.ptr)
    E.buf = E.new_cells(st, 16, 'buffer')
    S.set(st, 'm_consoleBuffer', E.buf)
    E.term = E.new_cells(st, 16, 'terminal')
    E.store_raw(st, S.p('m_terminal'), E.term, 8)
    for V, n in ((S, 'm_directMode'), (C, 'm_frozen'), (C, 'm_freezeUsesMark'), (C, 'm_isNewW10')):
        st.assume(z3.ULE(bv(V.get(st, n), 8), 1))
    E.lines = E.new_arr(st, class_size(E, 'ConsoleLine'), {0: 8}, LINES, 'lines')
    E.rows = {}
    # mem: what each ConsoleLine remembers; term: what was last sent for each line; last: the last line sent in this scrape; cur: the last cursor request
    g(st, mem=z3.Array('mem', A64, z3.BitVecSort(32)), term=z3.Array('term', A64, z3.BitVecSort(32)), last=z3.BitVecVal(-1, 64), curline=z3.BitVecVal(-1, 64), curcol=z3.BitVecVal(-1, 64),
      hidden=boolv(False), resets=0, sends=boolv(False), first=z3.BitVecVal(0, 64))
    handler(E, r'^trace\(', lambda E, s, a, ci: None, False)

    def fails(E, s, a, ci):
        E.oblige(s, False, 'assertion', 'no run-time assertion fails')
        return NoReturn()
    handler(E, r'^agentAssertFail\(', fails, 'agentAssertFail')
    E.fn_overrides['vec:ConsoleLine'] = vec_lines

    def slot_of(p):
        q = divmod_lin(p.off, class_size(E, 'ConsoleLine'))
        if p.oid != E.lines.oid or q is None or q[1]:
            raise Unsupported('not a line of the line buffer')
        return bv(q[0], 64)

    def row_of(s, p):
        if p.oid not in E.rows or p.off != 0:
            raise Unsupported('not the start of a row that was read')
        return E.rows[p.oid]

    def detect(E, s, a, ci):
        y = row_of(s, a[1])
        E.oblige(s, bv(a[2], 32) == E.width(s), 'precondition', 'a whole row is compared')
        i = slot_of(a[0])
        r = z3.Select(s.ghost['mem'], i) != LOOK(y)
        g(s, mem=z3.Store(s.ghost['mem'], i, LOOK(y)))
        return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    handler(E, r'^ConsoleLine::detectChangeAndSetLine\(', detect, 'ConsoleLine::detectChangeAndSetLine: true exactly if the row looks different; the row is remembered (property S01)')

    def setline(E, s, a, ci):
        y = row_of(s, a[1])
        E.oblige(s, bv(a[2], 32) == E.width(s), 'precondition', 'a whole row is remembered')
        g(s, mem=z3.Store(s.ghost['mem'], slot_of(a[0]), LOOK(y)))
    handler(E, r'^ConsoleLine::setLine\(', setline, 'ConsoleLine::setLine: the row is remembered (property S01)')

    def blank(E, s, a, ci):
        E.oblige(s, bv(a[1], 16) == 7, 'precondition', 'erased rows are grey on black')
        g(s, mem=z3.Store(s.ghost['mem'], slot_of(a[0]), BLANK))
    handler(E, r'^ConsoleLine::blank\(', blank, 'ConsoleLine::blank (property S01)')

    def reset(E, s, a, ci):
        g(s, mem=z3.Store(s.ghost['mem'], slot_of(a[0]), UNSET))
    handler(E, r'^ConsoleLine::reset\(', reset, 'ConsoleLine::reset (property S01)')

    def send(E, s, a, ci):
        E.oblige(s, a[0].oid == E.term.oid, 'precondition', 'the scraper\'s terminal')
        y = row_of(s, a[2])
        line, w, cc = bv(a[1], 64), bv(a[3], 32), bv(a[4], 32)
        E.oblige(s, w == E.width(s), 'precondition', 'a whole row is sent')
        E.check_send(E, s, line, y, cc)
        E.oblige(s, z3.Or(z3.Not(s.ghost['sends']), line > s.ghost['last']), 'precondition', 'lines are sent in order, each once')
        g(s, term=z3.Store(s.ghost['term'], line, LOOK(y)), last=line, sends=boolv(True))
    handler(E, r'^Terminal::sendLine\(', send, 'Terminal::sendLine: the terminal\'s line shows the row (property T02)')

    def show(E, s, a, ci):
        g(s, curcol=sx32(a[1]), curline=bv(a[2], 64), hidden=boolv(False))
    handler(E, r'^Terminal::showTerminalCursor\(', show, 'Terminal::showTerminalCursor (property T03)')

    def hide(E, s, a, ci):
        g(s, hidden=boolv(True))
    handler(E, r'^Terminal::hideTerminalCursor\(', hide, 'Terminal::hideTerminalCursor (property T03)')

    def linedata(E, s, a, ci):
        if a[0].oid != S.ptr.oid:
            raise Unsupported('another read buffer')
        n = sx32(a[1])
        t, b = (sx16(E.load_raw(s, padd(S.p('m_readBuffer'), o), 2, None)) for o in (2, 6))
        E.oblige(s, z3.And(n >= t, n <= b), 'precondition', 'the row is one of those read')
        p = E.new_arr(s, 4, {0: 2, 2: 2}, z3.ZeroExt(32, E.width(s)), 'row', {0: FArr.fun(16, lambda i: CH(n, bv(i, 64))), 2: FArr.fun(16, lambda i: AT(n, bv(i, 64)))})
        E.rows[p.oid] = n
        return p
    handler(E, r'^LargeConsoleReadBuffer::lineData\(', linedata, 'LargeConsoleReadBuffer::lineData: the row of that number (property S02)')
    E.width = lambda s: z3.SignExt(16, bv(E.load_raw(s, padd(S.p('m_readBuffer'), 4), 2, None), 16)) - z3.SignExt(16, bv(E.load_raw(s, S.p('m_readBuffer'), 2, None), 16)) + 1
    E.check_send = lambda *a: None
    return E, st, S, C


def vec_lines(E, st, args, ci, e, meth):
    sz = class_size(E, 'ConsoleLine')
    if meth == 'size':
        return LINES
    if meth in ('begin', 'data'):
        return padd(E.lines, 0)
    if meth == 'end':
        return padd(E.lines, LINES * sz)
    if meth in ('operator[]', 'at'):
        i = bv(args[1], 64)
        E.oblige(st, z3.ULT(i, LINES), 'memory', 'line buffer index in range')
        return Ptr(E.lines.oid, mul64(args[1], sz))
    raise Unsupported('vector<ConsoleLine>::' + meth)


def rect_get(E, st, p):
    return [sx16(E.load_raw(st, padd(p, o), 2, None)) for o in (0, 2, 4, 6)]


def unit_lemma(ctx):
    """what know_slot assumes of line % 3000"""
    E = ctx.mk([SCR])
    st = State()
    a, b = z3.Ints('a b')
    st.assume(z3.And(a >= 0, b >= 0))
    E.oblige(st, z3.And(a % LINES >= 0, a % LINES < LINES), 'lemma', 'a slot is in range')
    E.oblige(st, z3.Implies(z3.And(a - b < LINES, b - a < LINES, a != b), a % LINES != b % LINES), 'lemma', 'lines less than 3000 apart have their own slots')


def unit_scan(ctx):
    """scanForDirtyLines"""
    E, st, S, C = setup(ctx)
    I = Info(E, st, 'win')
    R = S.p('m_readBuffer')
    rl, rt, rr, rb = rect_get(E, st, R)
    D = sx32(S.get(st, 'm_dirtyLineCount'))
    st.assume(z3.And(rl == 0, rr >= rl, rr < 2500, rt >= 0, rb >= rt, rb < 32767, D >= 1, D <= rb + 1, D - 1 >= rt, I.wb <= rb, I.wb < 32766))
    w = rr - rl + 1
    stop = I.wb + 1
    y0, c0 = z3.BitVecs('y0 c0', 64)
    NB = z3.Function('hasSomething', A64, z3.BoolSort())     # some column of the row is not a blank in the colour of the row above
    Dn = lambda s: sx32(S.get(s, 'm_dirtyLineCount'))
    same = lambda y, c: z3.And(CH(y, c) == 0x20, AT(y, c) == AT(y - 1, w - 1))
    st.assume(z3.And(c0 >= 0, c0 < w))

    def found(s, line):
        """the count is the old one, or ends with a row that has something """
        d = Dn(s)
        return z3.Or(d == D, z3.And(d > D, NB(d - 1)))

    def outer(c):
        s, line = c.st, sx32(c['line'])
        p = bv(c['prevLineAttr'], 16)
        d = Dn(s)
        return [('within the window', z3.And(line >= D, z3.Or(line <= stop, line == D))), ('the count stays within the rows passed', z3.And(d >= D, z3.Or(d <= line, d == D))),
                ('the attribute to compare with', p == AT(line - 1, w - 1)), ('rows past the count are blank', z3.Implies(z3.And(y0 >= D, y0 >= d, y0 < line), same(y0, c0))), ('the last counted row is not blank', found(s, line))]

    def inner(c):
        s, line, col = c.st, sx32(c['line']), sx32(c['col'])
        d = Dn(s)
        return outer(c) + [('within the row', z3.And(col >= 0, col <= w)), ('earlier columns are blank', z3.Implies(c0 < col, same(line, c0))), ('before the bottom', line < stop)]

    def at_col(c):
        line, col = sx32(c['line']), sx32(c['col'])
        c.st.assume(z3.Implies(z3.And(col >= 0, col < w, z3.Not(same(line, col))), NB(line)))      # an instance of what NB means
    l1 = LoopSpec('columns', inner, fn=r'^Scraper::scanForDirtyLines', vars={'line': ('i', 32), 'col': ('i', 32), 'prevLineAttr': ('i', 16)}, decreases=lambda c: w - sx32(c['col']), on_head=at_col)
    l2 = LoopSpec('rows', outer, fn=r'^Scraper::scanForDirtyLines', vars={'line': ('i', 32), 'prevLineAttr': ('i', 16)}, decreases=lambda c: stop - sx32(c['line']))
    l2.pred = loop_calls(r'^LargeConsoleReadBuffer::lineData')
    l1.pred = lambda E, f, h: not loop_calls(r'^LargeConsoleReadBuffer::lineData')(E, f, h)
    E.loops = [l2, l1]
    E.targets.append('Scraper::scanForDirtyLines')
    rect = padd(I.p, 10)
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::scanForDirtyLines\('), [S.ptr, rect]):
        d = Dn(s)
        E.oblige(s, z3.And(d >= D, z3.Or(d <= stop, d == D)), 'postcondition', 'the count grows to the window\'s bottom at most')
        E.oblige(s, z3.Implies(z3.And(y0 >= d, y0 >= D, y0 < stop), same(y0, c0)), 'postcondition', 'a row not counted is blank in the colour of the row above')
        E.oblige(s, found(s, d), 'postcondition', 'the last counted row has something')



def fill_cells(E, s, p, n, ch, at):
    """the first n cells of a local array of CHAR_INFO"""
    o = s.mem[p.oid]
    if p.off != 0:
        raise Unsupported('cells inside an array')
    if o.kind == 'arr':
        E.oblige(s, z3.ULE(bv(n, 64), bv(o.count, 64)), 'memory', 'the cells fit the array')
        o2 = E.wobj(s, p)
        o2.fields = {0: (2, o.fields[0][1].copy(0, n, ch, 0)), 2: (2, o.fields[2][1].copy(0, n, at, 0))}
        return
    cnt = o.size // 4
    E.oblige(s, z3.ULE(bv(n, 64), cnt), 'memory', 'the cells fit the array')
    o2 = type(o)('arr', None, o.name)
    o2.stride, o2.count, o2.elem = 4, cnt, o.elem
    o2.fields = {0: (2, FArr.base(16, 'old').copy(0, n, ch, 0)), 2: (2, FArr.base(16, 'old').copy(0, n, at, 0))}
    s.mem[p.oid] = o2


MT = z3.Function('markerText', z3.BitVecSort(32), A64, z3.BitVecSort(8))        # the text of marker number n


def c_marker_text(E, s, a, ci):
    n = bv(E.S.get(s, 'm_syncCounter'), 32)
    fill_cells(E, s, a[1], MARK, FArr.fun(16, lambda i: z3.SignExt(8, MT(n, bv(i, 64)))), FArr.const(16, 7))


def unit_marker_text(ctx):
    E, st, S, C = setup(ctx)
    out = E.new_arr(st, 4, {0: 2, 2: 2}, MARK, 'output')
    n = bv(S.get(st, 'm_syncCounter'), 32)
    i0 = z3.BitVec('i0', 64)
    st.assume(z3.And(i0 >= 0, i0 < MARK))

    def fmt(E, s, a, ci):
        m = re.search(r'winpty_snprintf<(\d+)', ci.dn)
        f = lit_at(E, s, a[1], 1)
        conv = re.findall(r'%[^%]*?[a-zA-Z]', f)
        E.oblige(s, conv == ['%08x'], 'precondition', 'the text holds the marker\'s number, in eight digits')
        E.oblige(s, len(a) == 3 and z3.is_true(z3.simplify(bv(a[2], 32) == n)), 'precondition', 'the number is the marker\'s own')
        ln = len(f) - 4 + 8
        E.oblige(s, ln == MARK and m is not None and int(m.group(1)) > MARK, 'precondition', 'the text fills the marker')
        p = E.new_arr(s, 1, {0: 1}, MARK + 1, 'text', {0: FArr.fun(8, lambda i: MT(n, bv(i, 64))).set(MARK, 0)})
        o = s.mem[a[0].oid]
        o2 = type(o)('arr', None, o.name)
        o2.stride, o2.count, o2.elem, o2.fields = 1, MARK + 1, o.elem, s.mem[p.oid].fields
        s.mem[a[0].oid] = o2
        return MARK
    handler(E, r'winpty_snprintf<', fmt, 'winpty_snprintf (property D02)')
    cell = lambda s: z3.And(bv(farrs_at(s, out)[0].read(i0), 16) == z3.SignExt(8, MT(n, i0)), bv(farrs_at(s, out)[2].read(i0), 16) == 7)
    E.loops = [LoopSpec('marker cells', lambda c: [('within the marker', z3.And(bv(c['i'], 32) >= 0, bv(c['i'], 32) <= MARK)), ('cells written so far', z3.Implies(i0 < sx32(c['i']), cell(c.st)))],
                        fn=r'^Scraper::syncMarkerText', vars={'i': ('i', 32)}, decreases=lambda c: MARK - bv(c['i'], 32))]
    E.targets.append('Scraper::syncMarkerText')
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::syncMarkerText\('), [S.ptr, out]):
        E.oblige(s, cell(s), 'postcondition', 'the cells hold the marker\'s text')
        E.oblige(s, bv(S.get(s, 'm_syncCounter'), 32) == n, 'frame', 'the number is unchanged')


def farrs_at(s, p):
    return {f: a for f, (w, a) in s.mem[p.oid].fields.items()}


def c_read(E, X, Y):
    """Win32ConsoleBuffer::read inside a buffer of X by Y"""
    def f(E, s, a, ci):
        l, t, r, b = rect_get(E, s, a[1])
        E.oblige(s, a[0].oid == E.buf.oid, 'precondition', 'the scraper\'s console buffer')
        E.oblige(s, z3.And(l >= 0, l <= r, r < X, t >= 0, t <= b, b < Y), 'precondition', 'the read stays inside the console buffer')
        E.oblige(s, l == r, 'precondition', 'a single column')
        fill_cells(E, s, a[2], b - t + 1, FArr.fun(16, lambda i: CH(t + bv(i, 64), l)), FArr.fun(16, lambda i: AT(t + bv(i, 64), l)))
    return f


def unit_find_marker(ctx):
    E, st, S, C = setup(ctx)
    X = z3.BitVec('bufX', 64)
    sync = sx32(S.get(st, 'm_syncRow'))
    n = bv(S.get(st, 'm_syncCounter'), 32)
    st.assume(z3.And(X >= 1, X < 32767, sync >= 0, sync + MARK <= LINES))
    contract(E, r'^Scraper::syncMarkerText\(', c_marker_text, 'Scraper::syncMarkerText (unit)')
    handler(E, r'^Win32ConsoleBuffer::read\(', c_read(E, X, LINES), 'Win32ConsoleBuffer::read (property S02)')
    MATCH = z3.Function('markerAt', A64, z3.BoolSort())
    i0, j0 = z3.BitVecs('i0 j0', 64)
    st.assume(z3.And(j0 >= 0, j0 < MARK))
    eq = lambda i, j: CH(i + j, w64(0)) == z3.SignExt(8, MT(n, j))

    def head_in(c):
        i, j = sx32(c['i']), sx32(c['j'])
        c.st.assume(z3.Implies(z3.And(j >= 0, j < MARK, z3.Not(eq(i, j))), z3.Not(MATCH(i))))       # an instance of what MATCH means
    outer = lambda c: [('within the column', z3.And(sx32(c['i']) >= -1, sx32(c['i']) <= sync)), ('no marker at the rows passed', z3.Implies(z3.And(i0 > sx32(c['i']), i0 <= sync), z3.Not(MATCH(i0))))]
    inner = lambda c: outer(c) + [('a row', sx32(c['i']) >= 0), ('within the marker', z3.And(sx32(c['j']) >= 0, sx32(c['j']) <= MARK)), ('cells compared so far', z3.Implies(j0 < sx32(c['j']), eq(sx32(c['i']), j0)))]
    depth = lambda E, f, h: any(h2 != h and f.loops[h] < f.loops[h2] for h2 in f.loops)
    l2 = LoopSpec('rows', outer, fn=r'^Scraper::findSyncMarker', vars={'i': ('i', 32)}, decreases=lambda c: sx32(c['i']) + 1)
    l1 = LoopSpec('cells', inner, fn=r'^Scraper::findSyncMarker', vars={'i': ('i', 32), 'j': ('i', 32)}, decreases=lambda c: MARK - sx32(c['j']), on_head=head_in)
    l1.pred = depth
    l2.pred = lambda E, f, h: not depth(E, f, h)
    E.loops = [l2, l1]
    E.targets.append('Scraper::findSyncMarker')
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::findSyncMarker\('), [S.ptr]):
        if not isinstance(o, Ret):
            continue
        r = sx32(o.v)
        E.oblige(s, z3.And(r >= -1, r <= sync), 'postcondition', 'the marker is found where it was or above')
        E.oblige(s, z3.Implies(r >= 0, eq(r, j0)), 'postcondition', 'the marker\'s text is there')
        E.oblige(s, z3.Implies(z3.And(i0 > r, i0 <= sync, i0 >= 0), z3.Not(MATCH(i0))), 'postcondition', 'it is the lowest such row, or there is none')
        E.oblige(s, z3.And(bv(S.get(s, 'm_syncRow'), 32) == bv(S.get(st, 'm_syncRow'), 32)), 'frame', 'looking changes nothing')


def unit_create_marker(ctx):
    E, st, S, C = setup(ctx)
    I = Info(E, st, 'now')
    row = z3.BitVec('row', 32)
    n0 = bv(S.get(st, 'm_syncCounter'), 32)
    st.assume(z3.And(row >= 1, sx32(row) + MARK <= I.wt, I.Y == LINES))
    contract(E, r'^Scraper::syncMarkerText\(', c_marker_text, 'Scraper::syncMarkerText (unit)')
    g(st, cleared=boolv(False), written=boolv(False))

    def binfo(E, s, a, ci):
        for i in range(11):
            E.store_raw(s, padd(a[0], 2 * i), E.load_raw(s, padd(I.p, 2 * i), 2, None), 2)
    handler(E, r'^Win32ConsoleBuffer::bufferInfo\(', binfo, 'Win32ConsoleBuffer::bufferInfo')

    def clear(E, s, a, ci):
        r, n = sx32(a[1]), sx32(a[2])
        E.oblige(s, a[0].oid == E.buf.oid, 'precondition', 'the scraper\'s console buffer')
        E.oblige(s, z3.And(r >= 0, n >= 0, r + n <= I.wt), 'precondition', 'only rows above the window are erased')
        E.oblige(s, z3.And([bv(E.load_raw(s, padd(a[3], o), 2, None), 16) == I.raw[m] for o, m in ((0, 'X'), (2, 'Y'))]), 'precondition', 'by the buffer\'s present size')
        g(s, cleared=z3.And(r == sx32(row) - 1, n >= MARK + 1))
    handler(E, r'^Win32ConsoleBuffer::clearLines\(', clear, 'Win32ConsoleBuffer::clearLines')

    def write(E, s, a, ci):
        l, t, r, b = rect_get(E, s, a[1])
        E.oblige(s, a[0].oid == E.buf.oid, 'precondition', 'the scraper\'s console buffer')
        E.oblige(s, z3.And(l == 0, r == 0, t >= 0, b < I.wt), 'precondition', 'the marker is written above the window, in the first column')
        E.oblige(s, z3.And(t == sx32(S.get(s, 'm_syncRow')), b == t + MARK - 1), 'precondition', 'the marker is written at its row')
        E.oblige(s, s.ghost['cleared'], 'precondition', 'its rows were erased before')
        i0 = z3.BitVec('i0', 64)
        f = farrs_at(s, a[2])
        E.oblige(s, z3.Implies(z3.And(i0 >= 0, i0 < MARK), bv(f[0].read(i0), 16) == z3.SignExt(8, MT(bv(S.get(s, 'm_syncCounter'), 32), i0))), 'precondition', 'the text is that of the marker looked for later')
        g(s, written=boolv(True))
    handler(E, r'^Win32ConsoleBuffer::write\(', write, 'Win32ConsoleBuffer::write')
    E.targets.append('Scraper::createSyncMarker')
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::createSyncMarker\('), [S.ptr, row]):
        if not isinstance(o, Ret):
            continue
        E.oblige(s, bv(S.get(s, 'm_syncRow'), 32) == row, 'postcondition', 'the marker is at the requested row')
        E.oblige(s, bv(S.get(s, 'm_syncCounter'), 32) != n0, 'postcondition', 'it has a new text')
        E.oblige(s, s.ghost['written'], 'postcondition', 'the marker is written')


def reset_loop(E, fn):
    """a loop that resets every line of the line buffer, from the first to the last"""
    sz = class_size(E, 'ConsoleLine')
    k = z3.BitVec('k', 64)

    def pos(c):
        for r, p in c.regs.items():
            o = c.st.mem.get(p.oid) if isinstance(p, Ptr) else None
            if o is None or o.name != r or p.oid not in c.modified or o.size not in (4, 8):
                continue
            try:
                x = E.load_raw(c.st, padd(p, 0), 8, ('ptr',)) if o.size == 8 else bv(E.load_raw(c.st, padd(p, 0), 4, None), 32)
            except Unsupported:
                continue
            if not isinstance(x, Ptr):
                return sx32(x) if o.size == 4 else bv(x, 64)
            q = divmod_lin(x.off, sz)
            if x.oid == E.lines.oid and q is not None and not q[1]:
                return bv(q[0], 64)
        raise Unsupported('no iterator')

    def inv(c):
        s, i = c.st, pos(c)
        return [('within the line buffer', z3.ULE(i, LINES)), ('lines reset so far', z3.Implies(z3.ULT(k, i), z3.Select(s.ghost['mem'], k) == UNSET))]
    l = LoopSpec('lines', inv, fn=fn, decreases=lambda c: LINES - pos(c))
    l.pred = loop_calls(r'^ConsoleLine::reset')
    return l


def unit_reset(ctx):
    """resetConsoleTracking"""
    E, st, S, C = setup(ctx)
    E.loops = [reset_loop(E, r'^Scraper::resetConsoleTracking')]
    k = z3.BitVec('k', 64)
    n, flag = z3.BitVec('count', 64), z3.BitVec('flag', 32)

    def treset(E, s, a, ci):
        E.oblige(s, a[0].oid == E.term.oid, 'precondition', 'the scraper\'s terminal')
        E.oblige(s, bv(a[1], 32) == flag, 'precondition', 'the terminal is cleared if that is asked for')
        E.oblige(s, bv(a[2], 64) == n, 'precondition', 'the terminal starts at the line the scraper starts at')
        g(s, resets=s.ghost['resets'] + 1)
    handler(E, r'^Terminal::reset\(', treset, 'Terminal::reset (property T03)')
    E.targets.append('Scraper::resetConsoleTracking')
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::resetConsoleTracking\('), [S.ptr, flag, n]):
        if not isinstance(o, Ret):
            continue
        E.oblige(s, z3.Implies(z3.ULT(k, LINES), z3.Select(s.ghost['mem'], k) == UNSET), 'postcondition', 'nothing of what was sent is remembered')
        E.oblige(s, s.ghost['resets'] == 1, 'postcondition', 'the terminal is reset')
        for m, w, x in (('m_syncRow', 32, -1), ('m_scrapedLineCount', 64, n), ('m_scrolledCount', 64, 0), ('m_maxBufferedLine', 64, -1), ('m_dirtyWindowTop', 32, -1), ('m_dirtyLineCount', 32, 0)):
            E.oblige(s, bv(S.get(s, m), w) == x, 'postcondition', m + ' starts over')
        E.oblige(s, bv(S.get(s, 'm_directMode'), 8) == bv(S.get(st, 'm_directMode'), 8), 'frame', 'the mode is unchanged')


def unit_clear_lines(ctx):
    """clearBufferLines"""
    E, st, S, C = setup(ctx)
    slot_hook(E)
    first, n = z3.BitVecs('firstRow rows', 32)
    f, cnt = sx32(first), sx32(n)
    scr = bv(S.get(st, 'm_scrolledCount'), 64)
    mb = bv(S.get(st, 'm_maxBufferedLine'), 64)
    st.assume(z3.And(f >= 0, cnt >= 0, f + cnt <= LINES, scr >= 0, scr < w64(1 << 40), mb >= -1, mb < w64(1 << 41), bv(S.get(st, 'm_directMode'), 8) == 0))
    k = z3.BitVec('k', 64)                                       # any slot
    st.assume(z3.And(v >= 0, v < w64(1 << 42)))
    mem0 = st.ghost['mem']
    S0 = SLOT(v)

    def inv(c):
        s = c.st
        r = sx32(c['row'])
        m = bv(S.get(s, 'm_maxBufferedLine'), 64)
        know_slot(s, v, v)
        return [('within the rows', z3.And(r >= f, r <= f + cnt)), ('the greatest line so far', m == z3.If(z3.And(r > f, r - 1 + scr > mb), r - 1 + scr, mb)),
                ('rows blanked so far', z3.Implies(z3.And(v >= f + scr, v < r + scr), z3.Select(s.ghost['mem'], S0) == BLANK)),
                ('lines within reach that are not among them are kept', z3.Implies(z3.And(v >= f + cnt + scr, v < f + scr + LINES), z3.Select(s.ghost['mem'], S0) == z3.Select(mem0, S0)))]
    E.loops = [LoopSpec('rows', inv, fn=r'^Scraper::clearBufferLines', vars={'row': ('i', 32)}, decreases=lambda c: f + cnt - sx32(c['row']))]
    E.targets.append('Scraper::clearBufferLines')
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::clearBufferLines\('), [S.ptr, first, n]):
        if not isinstance(o, Ret):
            continue
        E.oblige(s, z3.Implies(z3.And(v >= f + scr, v < f + cnt + scr), z3.Select(s.ghost['mem'], S0) == BLANK), 'postcondition', 'the rows are remembered as blank')
        E.oblige(s, z3.Implies(z3.And(v >= f + cnt + scr, v < f + scr + LINES), z3.Select(s.ghost['mem'], S0) == z3.Select(mem0, S0)), 'postcondition', 'what is remembered of other lines is kept')
        E.oblige(s, bv(S.get(s, 'm_maxBufferedLine'), 64) == z3.If(z3.And(cnt > 0, f + cnt - 1 + scr > mb), f + cnt - 1 + scr, mb), 'postcondition', 'the greatest line remembered')
        E.oblige(s, bv(S.get(s, 'm_scrolledCount'), 64) == scr, 'frame', 'nothing else changes')


def unit_small(ctx):
    """markEntireWindowDirty, attributesMask"""
    E, st, S, C = setup(ctx)
    I = Info(E, st, 'win')
    D = sx32(S.get(st, 'm_dirtyLineCount'))
    st.assume(I.wb < 32766)
    E.targets += ['Scraper::markEntireWindowDirty', 'Scraper::attributesMask']
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::markEntireWindowDirty\('), [S.ptr, padd(I.p, 10)]):
        d = sx32(S.get(s, 'm_dirtyLineCount'))
        E.oblige(s, d == z3.If(I.wb + 1 > D, I.wb + 1, D), 'postcondition', 'every row down to the window\'s bottom is dirty')
    E, st, S, C = setup(ctx)
    S.set(st, 'm_consoleBuffer', E.buf)
    cp, mode, ok = z3.BitVecs('codepage mode ok', 32)
    handler(E, r'^GetConsoleOutputCP$', lambda E, s, a, ci: cp, 'GetConsoleOutputCP')
    hnd = Ptr(0, z3.BitVec('conout', 64))
    handler(E, r'^Win32ConsoleBuffer::conout\(', lambda E, s, a, ci: hnd, 'Win32ConsoleBuffer::conout')

    def gcm(E, s, a, ci):
        E.oblige(s, hv(a[0]) == hnd.off, 'precondition', 'the buffer\'s own mode')
        E.store_raw(s, a[1], z3.If(ok != 0, mode, fresh('m', 32)), 4)
        return ok
    handler(E, r'^GetConsoleMode$', gcm, 'GetConsoleMode')
    cjk = z3.Or([cp == x for x in (932, 936, 949, 950)])
    lvb = z3.And(ok != 0, mode & 0x10 != 0)
    vt = z3.And(ok != 0, mode & 4 != 0)
    under = z3.Or(cjk, lvb, vt)
    rev = z3.Or(under, bv(C.get(st, 'm_isNewW10'), 8) != 0)
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::attributesMask\(\)$'), [S.ptr]):
        if not isinstance(o, Ret):
            continue
        m = bv(o.v, 16)
        E.oblige(s, m & 0x3fff == 0x3fff, 'postcondition', 'colours are never dropped')
        E.oblige(s, (m & 0x4000 != 0) == rev, 'postcondition', 'reverse video is kept exactly where the console shows it')
        E.oblige(s, (m & 0x8000 != 0) == under, 'postcondition', 'underscores are kept exactly where the console shows them')

def c_large_read(E, X, Y, want=None):
    """largeConsoleRead of a rectangle inside a buffer of X by Y"""
    def f(E, s, a, ci):
        R = E.S.p('m_readBuffer')
        E.oblige(s, a[0].oid == R.oid and a[0].off == R.off and a[1].oid == E.buf.oid, 'precondition', 'from the scraper\'s console buffer into its own read buffer')
        l, t, r, b = rect_get(E, s, a[2])
        E.oblige(s, z3.And(l >= 0, l <= r, r < X, t >= 0, t <= b, b < Y, r - l < 2500), 'precondition', 'the read stays inside the console buffer and within the width supported')
        E.oblige(s, bv(a[3], 16) == MASK, 'precondition', 'the attributes are masked as the console shows them')
        if want:
            want(E, s, l, t, r, b)
        for o in (0, 2, 4, 6):
            E.store_raw(s, padd(R, o), E.load_raw(s, padd(a[2], o), 2, None), 2)
        g(s, reads=s.ghost['reads'] + 1)
    handler(E, r'^largeConsoleRead\(', f, 'largeConsoleRead (property S02)')
    MASK = z3.BitVec('mask', 16)
    contract(E, r'^Scraper::attributesMask\(\)$', lambda E, s, a, ci: MASK, 'Scraper::attributesMask (unit)')


def unit_direct(ctx):
    """directScrapeOutput"""
    E, st, S, C = setup(ctx)
    I = Info(E, st, 'info')
    px, py = sx16(E.load_raw(st, S.p('m_ptySize'), 2, None)), sx16(E.load_raw(st, padd(S.p('m_ptySize'), 2), 2, None))
    st.assume(z3.And(px >= 1, py >= 1))
    vis = z3.BitVec('visible', 1)
    mn = lambda *x: x[0] if len(x) == 1 else (lambda t: z3.If(x[0] < t, x[0], t))(mn(*x[1:]))
    w = mn(I.wr - I.wl + 1, px, w64(2500))
    h = mn(I.wb - I.wt + 1, py, w64(LINES))
    shown = z3.And(vis == 1, I.cx >= I.wl, I.cx < I.wl + w, I.cy >= I.wt, I.cy < I.wt + h)
    g(st, reads=0)

    def want(E, s, l, t, r, b):
        E.oblige(s, z3.And(l == I.wl, t == I.wt, r == I.wl + w - 1, b == I.wt + h - 1), 'precondition', 'the part of the window that fits the terminal is read')
    c_large_read(E, I.X, I.Y, want)
    y0 = z3.BitVec('y0', 64)
    st.assume(z3.And(y0 >= 0, y0 < h))
    sel = lambda s, n, i: z3.Select(s.ghost[n], i)
    known = lambda s: z3.Or(sel(s, 'mem', y0) == UNSET, sel(s, 'mem', y0) == sel(s, 'term', y0))
    st.assume(known(st))                       # class invariant: what is remembered of a line is what the terminal shows, or nothing is remembered
    mem0, term0 = st.ghost['mem'], st.ghost['term']
    look = lambda s, y: s.assume(LOOK(y) != UNSET)      # a reset line equals no row (S01)

    def check_send(E, s, line, y, cc):
        E.oblige(s, z3.And(line >= 0, line == y - I.wt), 'precondition', 'a row is sent to the line at its place in the window')
        E.oblige(s, sx32(cc) == z3.If(z3.And(shown, y == I.cy), I.cx - I.wl, w64(-1)), 'precondition', 'the cursor\'s column goes with its line, and with no other')
        g(s, curline=w64(-2))
    E.check_send = check_send
    look(st, y0 + I.wt)

    def inv(c):
        s, n = c.st, sx32(c['line'])
        return [('within the window', z3.And(n >= 0, n <= h)), ('rows done', z3.Implies(y0 < n, z3.And(sel(s, 'term', y0) == LOOK(y0 + I.wt), sel(s, 'mem', y0) == LOOK(y0 + I.wt)))),
                ('rows still to do', z3.Implies(y0 >= n, z3.And(sel(s, 'mem', y0) == z3.Select(mem0, y0), sel(s, 'term', y0) == z3.Select(term0, y0)))), ('sent so far', z3.Or(z3.Not(s.ghost['sends']), s.ghost['last'] < n)),
                ('the cursor stays hidden', z3.Implies(z3.Not(shown), s.ghost['hidden']))]
    l = LoopSpec('rows', inv, fn=r'^Scraper::directScrapeOutput', vars={'line': ('i', 32)}, decreases=lambda c: h - sx32(c['line']), on_head=lambda c: look(c.st, sx32(c['line']) + I.wt))
    E.loops = [l]
    E.targets.append('Scraper::directScrapeOutput')
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::directScrapeOutput\('), [S.ptr, I.p, vis]):
        if not isinstance(o, Ret):
            continue
        E.oblige(s, s.ghost['reads'] == 1, 'postcondition', 'all rows belong to one read')
        E.oblige(s, sel(s, 'term', y0) == LOOK(y0 + I.wt), 'postcondition', 'every line of the terminal shows its row of the window')
        E.oblige(s, sel(s, 'mem', y0) == sel(s, 'term', y0), 'postcondition', 'and is remembered')
        E.oblige(s, z3.Implies(shown, z3.And(z3.Not(s.ghost['hidden']), s.ghost['curline'] == I.cy - I.wt, s.ghost['curcol'] == I.cx - I.wl)), 'postcondition', 'the cursor is shown at its place in the window, after the last line was sent')
        E.oblige(s, z3.Implies(z3.Not(shown), s.ghost['hidden']), 'postcondition', 'a cursor that is not visible there is hidden')

def fields(E, s):
    """the scraper's own account: marker row, window top, dirty rows, rows scrolled, lines scraped, greatest line remembered"""
    S = E.S
    return (sx32(S.get(s, 'm_syncRow')), sx32(S.get(s, 'm_dirtyWindowTop')), sx32(S.get(s, 'm_dirtyLineCount')), bv(S.get(s, 'm_scrolledCount'), 64), bv(S.get(s, 'm_scrapedLineCount'), 64),
            bv(S.get(s, 'm_maxBufferedLine'), 64))


BIG = w64(1 << 40)              # lines the console scrolls between resets: assumed


def wf(E, s):
    """the class invariant of a scraper in scrolling mode; floor is the first line the terminal is answerable for"""
    sync, top, D, k, P, M = fields(E, s)
    fl = s.ghost['floor']
    return [('the marker is in the buffer', z3.And(sync >= -1, sync <= LINES - MARK)),
            ('the marker is above the window', z3.Implies(sync != -1, top >= z3.If(sync < 1, 1, sync) + MARK)),
            ('the window was in the buffer', z3.And(top >= -1, top < LINES)), ('the dirty rows are in the buffer', z3.And(D >= 0, D <= LINES)), ('the scroll count', k >= 0),
            ('no row below the marker is unscraped', z3.And(P - k >= 0, P - k >= sync, P - k < LINES)), ('lines remembered are dirty rows', z3.And(M >= -1, M < k + D)),
            ('no line is skipped', P <= z3.If(M + 1 > fl, M + 1, fl))]


def known(E, s, v):
    """what is remembered of a line is what the terminal shows"""
    sync, top, D, k, P, M = fields(E, s)
    return z3.Implies(z3.And(v >= k, v <= M, v >= s.ghost['floor']), z3.Select(s.ghost['term'], v) == z3.Select(s.ghost['mem'], SLOT(v)))


def c_reset(E, top, tent=None):
    def f(E, s, a, ci):
        S = E.S
        if tent is not None:
            E.oblige(s, z3.Not(tent), 'precondition', 'a tentative scrape resets nothing')
        E.oblige(s, bv(a[1], 32) == 1, 'precondition', 'the terminal is cleared')
        n = bv(a[2], 64)
        E.oblige(s, n == top(s), 'precondition', 'tracking starts over at the window\'s first row')
        for m, w, x in (('m_syncRow', 32, -1), ('m_scrapedLineCount', 64, n), ('m_scrolledCount', 64, 0), ('m_maxBufferedLine', 64, -1), ('m_dirtyWindowTop', 32, -1), ('m_dirtyLineCount', 32, 0)):
            S.set(s, m, z3.BitVecVal(x, w) if isinstance(x, int) else x)
        g(s, mem=z3.K(A64, UNSET), term=z3.FreshConst(z3.ArraySort(A64, z3.BitVecSort(32)), 'term'), floor=n, P=n, resets=s.ghost['resets'] + 1)
    contract(E, r'^Scraper::resetConsoleTracking\(', f, 'Scraper::resetConsoleTracking (unit)')


def scroll(case):
    """scrollingScrapeOutput, by cases: frozen or not, with a marker or without, after a reset or not, and by what became of the marker"""
    return lambda ctx: unit_scroll(ctx, *case)


def unit_scroll(ctx, tentative, marker, fresh_start, up=None):
    E, st, S, C = setup(ctx)
    E.solver.first = 150
    I = Info(E, st, 'info')
    vis, tb = z3.BitVec('visible', 1), z3.BitVec('tentative', 1)
    tent = tb == 1
    st.assume(I.Y == LINES)
    g(st, reads=0, floor=z3.ZeroExt(24, z3.BitVec('floor', 40)), checked=boolv(False), marked=boolv(False))
    # the bounds of the class invariant, by construction
    k0 = z3.ZeroExt(24, z3.BitVec('scrolled', 40))
    S.set(st, 'm_scrolledCount', k0)
    S.set(st, 'm_scrapedLineCount', k0 + z3.ZeroExt(52, z3.BitVec('unscraped', 12)))
    S.set(st, 'm_maxBufferedLine', z3.ZeroExt(23, z3.BitVec('remembered', 41)) - 1)
    v = z3.ZeroExt(22, z3.BitVec('line', 42))
    slot_hook(E, v)
    sync0, top0, D0, k0, P0, M0 = fields(E, st)
    for n, c in wf(E, st):
        st.assume(c)
    if up is not None:
        st.assume((I.wt < top0) == up)
    st.assume(z3.And(tent if tentative else z3.Not(tent), (sync0 != -1) if marker else sync0 == -1, top0 == -1 if fresh_start else top0 != -1))
    st.assume(known(E, st, v))
    know_slot(st, v, v)
    g(st, P=P0)
    shown = z3.And(vis == 1, I.cx >= I.wl, I.cx <= I.wr, I.cy >= I.wt, I.cy <= I.wb)
    mn = lambda a, b: z3.If(b < a, b, a)
    w = mn(I.X, w64(2500))
    look = lambda s, y: s.assume(LOOK(y) != UNSET)      # a reset line equals no row (S01)
    ROW = z3.Function('blankRow', A64, z3.BoolSort())     # every column is a blank in the colour of the row above

    def find(E, s, a, ci):
        sync = fields(E, s)[0]
        E.oblige(s, z3.And(sync >= 0, sync + MARK <= LINES), 'precondition', 'the marker is in the buffer')
        r = fresh('marker', 32)
        s.assume(z3.And(sx32(r) >= -1, sx32(r) <= sync))
        if isinstance(s.ghost['reads'], int) and s.ghost['reads'] == 0:
            s.assume({'in place': sx32(r) == sync, 'scrolled': z3.And(sx32(r) >= 0, sx32(r) != sync), 'lost': r == -1}[marker])
        g(s, marked=z3.And(s.ghost['reads'] == 1, sx32(r) == sync))
        return r
    contract(E, r'^Scraper::findSyncMarker\(', find, 'Scraper::findSyncMarker (unit)')

    def create(E, s, a, ci):
        row = bv(a[1], 32)
        E.oblige(s, z3.Not(tent), 'precondition', 'a tentative scrape writes nothing into the console')
        E.oblige(s, z3.And(row >= 1, sx32(row) + MARK <= I.wt), 'precondition', 'the marker stays above the window, with a row to spare')
        S.set(s, 'm_syncRow', row)
        S.set(s, 'm_syncCounter', fresh('counter', 32))
    contract(E, r'^Scraper::createSyncMarker\(', create, 'Scraper::createSyncMarker (unit)')
    c_reset(E, lambda s: I.wt, tent)

    def scan(E, s, a, ci):
        rl, rt, rr, rb = rect_get(E, s, S.p('m_readBuffer'))
        D = fields(E, s)[2]
        l, t, r, b = rect_get(E, s, a[1])
        E.oblige(s, z3.And(t == I.wt, b == I.wb), 'precondition', 'the window is scanned')
        E.oblige(s, z3.And(rl == 0, rr >= rl, rr < 2500, rt >= 0, D >= 1, D <= rb + 1, D - 1 >= rt, I.wb <= rb), 'precondition', 'the rows to scan, and the one above, were read')
        d = fresh('dirty', 32)
        e = sx32(d)
        s.assume(z3.And(e >= D, z3.Or(e <= I.wb + 1, e == D)))
        y = v - fields(E, s)[3]
        s.assume(z3.Implies(z3.And(y >= e, y <= I.wb), ROW(y)))
        S.set(s, 'm_dirtyLineCount', d)
    contract(E, r'^Scraper::scanForDirtyLines\(', scan, 'Scraper::scanForDirtyLines (unit)')

    def mark(E, s, a, ci):
        t, b = rect_get(E, s, a[1])[1::2]
        E.oblige(s, z3.And(t == I.wt, b == I.wb), 'precondition', 'the window is marked')
        d = bv(S.get(s, 'm_dirtyLineCount'), 32)
        n = z3.Extract(31, 0, I.wb + 1)
        S.set(s, 'm_dirtyLineCount', z3.If(n > d, n, d))
    contract(E, r'^Scraper::markEntireWindowDirty\(', mark, 'Scraper::markEntireWindowDirty (unit)')

    def want(E, s, l, t, r, b):
        sync, top, D, k, P, M = fields(E, s)
        E.oblige(s, z3.And(l == 0, r == w - 1), 'precondition', 'whole rows are read')
        E.oblige(s, z3.And(t <= I.wt, t <= P - k, b >= I.wb), 'precondition', 'every row not scraped yet is read, and the window')
    c_large_read(E, I.X, LINES, want)

    def binfo(E, s, a, ci):
        same = []
        for n in ('X', 'Y', 'cx', 'cy', 'attr', 'wl', 'wt', 'wr', 'wb', 'mx', 'my'):
            x = z3.If(tent, fresh('now.' + n, 16), I.raw[n])
            if n not in ('attr', 'mx', 'my'):
                same.append(x == I.raw[n])
            E.store_raw(s, padd(a[0], 2 * ('X', 'Y', 'cx', 'cy', 'attr', 'wl', 'wt', 'wr', 'wb', 'mx', 'my').index(n)), x, 2)
        g(s, checked=z3.And(s.ghost['reads'] == 1, *same))
    handler(E, r'^Win32ConsoleBuffer::bufferInfo\(', binfo, 'Win32ConsoleBuffer::bufferInfo: what it was if the console is frozen, anything otherwise')

    def check_send(E, s, line, y, cc):
        sync, top, D, k, P, M = fields(E, s)
        E.oblige(s, z3.And(line >= 0, line == y + k), 'precondition', 'a row is sent to the line it has always had')
        E.oblige(s, sx32(cc) == z3.If(z3.And(shown, y == I.cy), I.cx, w64(-1)), 'precondition', 'the cursor\'s column goes with its line, and with no other')
        g(s, curline=w64(-2))
    E.check_send = check_send
    sel = lambda s, n, i: z3.Select(s.ghost[n], i)

    def bounds(s):
        """first and last line of this scrape; the count of lines scraped may be on record already"""
        sync, top, D, k, P, M = fields(E, s)
        P = s.ghost['P']
        return mn(P, I.wt + k), mn(D, I.wb + 1) + k

    def inv(c):
        s, n = c.st, bv(c['line'], 64)
        e = c.entry
        f, stop = bounds(s)
        sync, top, D, k, P, M = fields(E, s)
        M1 = fields(E, e)[5]
        return [('within the lines to scrape', z3.And(n >= f, n <= stop)), ('the greatest line so far', M == z3.If(z3.And(n > f, n - 1 > M1), n - 1, M1)),
                ('lines done', z3.Implies(z3.And(v >= f, v < n), z3.And(z3.Implies(v >= s.ghost['floor'], sel(s, 'term', v) == LOOK(v - k)), sel(s, 'mem', SLOT(v)) == LOOK(v - k)))),
                ('other lines', z3.Implies(z3.And(v >= k, v < k + LINES, z3.Or(v < f, v >= n)), z3.And(sel(s, 'mem', SLOT(v)) == sel(e, 'mem', SLOT(v)), sel(s, 'term', v) == sel(e, 'term', v)))),
                ('sent so far', z3.Or(z3.Not(s.ghost['sends']), s.ghost['last'] < n)), ('the cursor stays hidden', z3.Implies(z3.Not(shown), s.ghost['hidden']))]
    l = LoopSpec('lines', inv, fn=r'^Scraper::scrollingScrapeOutput', vars={'line': ('i', 64), 'sawModifiedLine': ('i', 8)}, decreases=lambda c: bounds(c.st)[1] - bv(c['line'], 64),
                 on_head=lambda c: look(c.st, bv(c['line'], 64) - fields(E, c.st)[3]))
    E.loops = [l]
    E.targets.append('Scraper::scrollingScrapeOutput')
    term0, mem0 = st.ghost['term'], st.ghost['mem']
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::scrollingScrapeOutput\('), [S.ptr, I.p, vis, tb]):
        if not isinstance(o, Ret):
            continue
        sync, top, D, k, P, M = fields(E, s)
        ok = bv(o.v, 1) == 1 if not isinstance(o.v, int) else z3.BoolVal(bool(o.v & 1))
        E.oblige(s, z3.Or(ok, tent), 'postcondition', 'only a tentative scrape may be given up')
        for n, c in wf(E, s):
            E.oblige(s, c, 'invariant', n)
        E.oblige(s, known(E, s, v), 'invariant', 'what is remembered of a line is what the terminal shows')
        E.oblige(s, z3.Implies(z3.Not(ok), z3.And(sel(s, 'term', v) == z3.Select(term0, v), z3.Not(s.ghost['sends']), s.ghost['resets'] == 0)), 'postcondition', 'a scrape given up sends nothing')
        y = v - k
        E.oblige(s, z3.Implies(z3.And(ok, y >= I.wt, y <= I.wb, v >= s.ghost['floor'], y < D), sel(s, 'term', v) == LOOK(y)), 'postcondition', 'every row of the window down to the last with content is what the terminal shows')
        E.oblige(s, z3.Implies(z3.And(ok, s.ghost['resets'] == 0, v >= P0, y <= I.wb, y < D, v >= s.ghost['floor']), sel(s, 'term', v) == LOOK(y)), 'postcondition', 'and every row that left the window since the last scrape')
        E.oblige(s, z3.Implies(z3.And(ok, y >= I.wt, y <= I.wb, y >= D), z3.And(ROW(y), v > M)), 'postcondition', 'rows below that are blank and were never sent')
        E.oblige(s, z3.Implies(ok, z3.And(P == I.wt + k, top == I.wt)), 'postcondition', 'the window\'s rows are scraped again the next time')
        E.oblige(s, z3.Implies(z3.And(ok, s.ghost['resets'] == 0, I.wt >= 2 * (MARK + MARGIN) - 1), z3.And(sync >= 0, I.wt - sync < 2 * (MARK + MARGIN))), 'postcondition', 'a marker is kept near the window')
        E.oblige(s, z3.Implies(z3.And(ok, tent), z3.And(s.ghost['checked'], z3.Or(sync == -1, s.ghost['marked']))), 'postcondition', 'a tentative scrape counts only if the console is what it was before it was read')
        E.oblige(s, z3.Implies(ok, s.ghost['reads'] == 1), 'postcondition', 'all rows belong to one read')
        E.oblige(s, z3.Implies(z3.And(ok, shown), z3.And(z3.Not(s.ghost['hidden']), s.ghost['curline'] == I.cy + k, s.ghost['curcol'] == I.cx)), 'postcondition', 'the cursor is shown on its line, after the last line was sent')
        E.oblige(s, z3.Implies(z3.And(ok, z3.Not(shown)), s.ghost['hidden']), 'postcondition', 'a cursor that is not visible there is hidden')


def console_run(E, st, frozen):
    """the console: what it says of itself holds as long as it is frozen, and nothing is done to it"""
    C = E.C
    C.set(st, 'm_frozen', 1 if frozen else 0)
    g(st, gen=0)
    E.infos = {}

    def is_frozen(s):
        x = C.get(s, 'm_frozen')
        x = x if isinstance(x, int) else z3.simplify(x)
        if not isinstance(x, int) and not z3.is_bv_value(x):
            raise Unsupported('whether the console is frozen is not known')
        return (x if isinstance(x, int) else x.as_long()) != 0
    E.is_frozen = is_frozen

    def now(s):
        """the console's present description"""
        n = s.ghost['gen']
        if n not in E.infos:
            E.infos[n] = Info(E, s, 'info%d' % n, False)
        I = E.infos[n]
        s.assume(I.ok)
        return I
    E.now = now

    def setf(E, s, a, ci):
        w = a[1] if isinstance(a[1], int) else z3.simplify(bv(a[1], 1))
        if not isinstance(w, int):
            if not z3.is_bv_value(w):
                raise Unsupported('frozen or not')
            w = w.as_long()
        if bool(w & 1) != is_frozen(s):
            g(s, gen=s.ghost['gen'] + 1)
        C.set(s, 'm_frozen', w & 1)
    handler(E, r'^Win32Console::setFrozen\(', setf, 'Win32Console::setFrozen (property C01)')

    def binfo(E, s, a, ci):
        E.oblige(s, a[1].oid == E.buf.oid, 'precondition', 'the scraper\'s console buffer') if len(a) > 1 else None
        if not is_frozen(s):
            g(s, gen=s.ghost['gen'] + 1)
        I = now(s)
        for i, m in enumerate(('X', 'Y', 'cx', 'cy', 'attr', 'wl', 'wt', 'wr', 'wb', 'mx', 'my')):
            E.store_raw(s, padd(a[0], 2 * i), I.raw[m], 2)
    handler(E, r'^Win32ConsoleBuffer::bufferInfo\(', binfo, 'Win32ConsoleBuffer::bufferInfo: the console\'s present description, which stays the same while it is frozen and left alone')

    def same(s, p, I):
        return z3.And([bv(E.load_raw(s, padd(p, 2 * i), 2, None), 16) == I.raw[m] for i, m in enumerate(('X', 'Y', 'cx', 'cy', 'attr', 'wl', 'wt', 'wr', 'wb', 'mx', 'my')) if m not in ('attr', 'mx', 'my')])
    E.same_info = same


def unit_sync(ctx, frozen, force):
    """syncConsoleContentAndSize"""
    E, st, S, C = setup(ctx)
    E.merge = False
    S.set(st, 'm_consoleBuffer', E.buf)
    console_run(E, st, frozen)
    out = E.new_cells(st, 24, 'final')
    g(st, scrapes=0, resized=0, mode=None, sgen=None, visible=None, floor=w64(0), P=w64(0))
    direct0 = bv(S.get(st, 'm_directMode'), 8) != 0
    isdirect = lambda s: bv(S.get(s, 'm_directMode'), 8) != 0
    handler(E, r'^GetStdHandle$', lambda E, s, a, ci: Ptr(0, z3.BitVec('stdhandle', 64)), 'GetStdHandle')

    def gci(E, s, a, ci):
        x, ok = fresh('visible', 32), fresh('ok', 32)
        E.store_raw(s, padd(a[1], 4), x, 4)
        g(s, visible=z3.Or(ok == 0, x != 0))
        return ok
    handler(E, r'^GetConsoleCursorInfo$', gci, 'GetConsoleCursorInfo')

    def reset(E, s, a, ci):
        I = E.now(s)
        E.oblige(s, bv(a[1], 32) == 1, 'precondition', 'the terminal is cleared')
        E.oblige(s, z3.Or(isdirect(s) != (I.Y != LINES)), 'precondition', 'tracking starts over only when the mode changes')
        E.oblige(s, bv(a[2], 64) == z3.If(I.Y != LINES, w64(0), I.wt), 'precondition', 'a full-screen program starts at the terminal\'s top, scrolling at the window\'s first row')
        g(s, resets=s.ghost['resets'] + 1)
    contract(E, r'^Scraper::resetConsoleTracking\(', reset, 'Scraper::resetConsoleTracking (unit)')

    def fresh_info(E, s, p, vis):
        E.oblige(s, E.same_info(s, p, E.now(s)), 'precondition', 'the console is scraped by its present description')
        E.oblige(s, (bv(vis, 1) == 1) == s.ghost['visible'] if s.ghost['visible'] is not None else False, 'precondition', 'whether its cursor is visible is what it said')

    def direct(E, s, a, ci):
        fresh_info(E, s, a[1], a[2])
        E.oblige(s, isdirect(s), 'precondition', 'in direct mode')
        E.oblige(s, s.ghost['resized'] == (1 if force else s.ghost['resized']), 'precondition', 'a resize comes before the scrape')
        g(s, scrapes=s.ghost['scrapes'] + 1, mode='direct', sgen=s.ghost['gen'])
    contract(E, r'^Scraper::directScrapeOutput\(', direct, 'Scraper::directScrapeOutput (unit)')

    def scroll(E, s, a, ci):
        fresh_info(E, s, a[1], a[2])
        E.oblige(s, z3.And(z3.Not(isdirect(s)), E.now(s).Y == LINES), 'precondition', 'in scrolling mode, of a buffer of 3000 rows')
        t = bv(a[3], 1) == 1
        E.oblige(s, t == (not E.is_frozen(s)), 'precondition', 'the scrape is tentative exactly if the console is running')
        E.oblige(s, s.ghost['resized'] == 0, 'precondition', 'the scrape comes before a resize, which erases what is above the window')
        q = s.copy()
        q.assume(t)
        g(s, scrapes=s.ghost['scrapes'] + 1, mode='scroll', sgen=s.ghost['gen'])
        return Outs([(s, Ret(1)), (q, Ret(0))])
    contract(E, r'^Scraper::scrollingScrapeOutput\(', scroll, 'Scraper::scrollingScrapeOutput (unit)')

    def resize(E, s, a, ci):
        E.oblige(s, E.is_frozen(s), 'precondition', 'the console is frozen')
        E.oblige(s, E.same_info(s, a[1], E.now(s)), 'precondition', 'the console is resized by its present description')
        E.oblige(s, z3.Or(isdirect(s), s.ghost['scrapes'] == 1), 'precondition', 'scrolled rows are scraped before they are erased')
        g(s, resized=s.ghost['resized'] + 1, gen=s.ghost['gen'] + 1)
    contract(E, r'^Scraper::resizeImpl\(', resize, 'Scraper::resizeImpl (unit)')
    E.targets.append('Scraper::syncConsoleContentAndSize')
    n = 0
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::syncConsoleContentAndSize\('), [S.ptr, z3.BitVecVal(1 if force else 0, 1), out]):
        if not isinstance(o, Ret):
            continue
        n += 1
        E.oblige(s, s.ghost['scrapes'] == 1, 'postcondition', 'the console is scraped, once')
        E.oblige(s, E.same_info(s, out, E.now(s)), 'postcondition', 'the caller gets the console\'s present description')
        E.oblige(s, s.ghost['resized'] <= 1 and (s.ghost['resized'] == 1 or not force), 'postcondition', 'the console is resized if that is asked for')
        E.oblige(s, z3.Implies(z3.And(direct0, z3.Not(isdirect(s))), s.ghost['resized'] == 1), 'postcondition', 'and when a full-screen program ends')
        E.oblige(s, z3.Implies(isdirect(s) != direct0, s.ghost['resets'] >= 1), 'postcondition', 'tracking starts over when the mode changes')
        E.oblige(s, z3.Implies(isdirect(s) == direct0, z3.BoolVal(s.ghost['resets'] == 0)) if s.ghost['resets'] < 2 else True, 'postcondition', 'and only then')
        E.oblige(s, s.ghost['mode'] == 'direct' and s.ghost['sgen'] == s.ghost['gen'] or s.ghost['mode'] == 'scroll' and s.ghost['sgen'] == s.ghost['gen'] - s.ghost['resized'], 'postcondition',
                 'nothing happened to the console since it was scraped, but the resize itself')
    E.oblige(st, n > 0, 'vacuity', 'the function returns')


def unit_resize(ctx, direct):
    """resizeImpl"""
    E, st, S, C = setup(ctx)
    E.solver.first = 150
    E.merge = False
    S.set(st, 'm_consoleBuffer', E.buf)
    S.set(st, 'm_directMode', 1 if direct else 0)
    console_run(E, st, True)
    o0 = E.now(st)
    cols, rows = sx16(E.load_raw(st, S.p('m_ptySize'), 2, None)), sx16(E.load_raw(st, padd(S.p('m_ptySize'), 2), 2, None))
    st.assume(z3.And(cols >= 1, cols <= 2500, rows >= 1, rows <= 2000))
    k0 = z3.ZeroExt(24, z3.BitVec('scrolled', 40))
    S.set(st, 'm_scrolledCount', k0)
    S.set(st, 'm_scrapedLineCount', k0 + z3.ZeroExt(52, z3.BitVec('unscraped', 12)))
    S.set(st, 'm_maxBufferedLine', z3.ZeroExt(23, z3.BitVec('remembered', 41)) - 1)
    v = z3.ZeroExt(22, z3.BitVec('line', 42))
    g(st, floor=z3.ZeroExt(24, z3.BitVec('floor', 40)), erased=None, moved=None, sized=None, reset=False)
    know_slot(st, v, v)
    sync0, top0, D0, _, P0, M0 = fields(E, st)
    if not direct:
        for n, c in wf(E, st):
            st.assume(c)
        # what a scrape leaves behind
        st.assume(z3.And(o0.Y == LINES, top0 == o0.wt, P0 == k0 + o0.wt, D0 >= o0.wt))
        st.assume(known(E, st, v))
    else:
        st.assume(z3.And(o0.Y >= 1, sync0 >= -1))

    def clear(E, s, a, ci):
        r, n = sx32(a[1]), sx32(a[2])
        E.oblige(s, a[0].oid == E.buf.oid, 'precondition', 'the scraper\'s console buffer')
        E.oblige(s, E.is_frozen(s) and s.ghost['gen'] == 0, 'precondition', 'the console is frozen since it was scraped')
        E.oblige(s, z3.And(r >= 0, n >= 0, r + n <= o0.wt), 'precondition', 'only rows above the window are erased')
        E.oblige(s, z3.And([bv(E.load_raw(s, padd(a[3], o), 2, None), 16) == o0.raw[m] for o, m in ((0, 'X'), (2, 'Y'))]), 'precondition', 'by the buffer\'s present size')
        g(s, erased=(r, n))
    handler(E, r'^Win32ConsoleBuffer::clearLines\(', clear, 'Win32ConsoleBuffer::clearLines')

    def clear_mem(E, s, a, ci):
        f, n = sx32(a[1]), sx32(a[2])
        k, M = fields(E, s)[3], fields(E, s)[5]
        E.oblige(s, z3.And(f == 0, n == o0.wt), 'precondition', 'what is remembered of the rows above the window is erased')
        E.oblige(s, bv(S.get(s, 'm_directMode'), 8) == 0, 'precondition', 'in scrolling mode')
        m0 = s.ghost['mem']
        m1 = z3.FreshConst(m0.sort(), 'mem')
        x = SLOT(v)
        s.assume(z3.Implies(z3.And(v >= f + k, v < f + n + k), z3.Select(m1, x) == BLANK))
        s.assume(z3.Implies(z3.And(v >= f + n + k, v < f + k + LINES), z3.Select(m1, x) == z3.Select(m0, x)))
        S.set(s, 'm_maxBufferedLine', z3.If(z3.And(n > 0, f + n - 1 + k > M), f + n - 1 + k, M))
        fl = s.ghost['floor']
        g(s, mem=m1, floor=z3.If(k + n > fl, k + n, fl))     # the terminal keeps the rows erased
    contract(E, r'^Scraper::clearBufferLines\(', clear_mem, 'Scraper::clearBufferLines (unit)')

    def create(E, s, a, ci):
        row = bv(a[1], 32)
        E.oblige(s, E.is_frozen(s), 'precondition', 'the console is frozen')
        E.oblige(s, z3.And(row >= 1, sx32(row) + MARK <= o0.wt), 'precondition', 'the marker stays above the window, with a row to spare')
        E.oblige(s, sx32(row) + MARK <= LINES - rows, 'precondition', 'and above any window of the new size')
        S.set(s, 'm_syncRow', row)
        S.set(s, 'm_syncCounter', fresh('counter', 32))
    contract(E, r'^Scraper::createSyncMarker\(', create, 'Scraper::createSyncMarker (unit)')

    def font(E, s, a, ci):
        E.oblige(s, not E.is_frozen(s), 'precondition', 'the font is changed only while the console runs')
        g(s, gen=s.ghost['gen'] + 1)
    handler(E, r'^setSmallFont\(', font, 'setSmallFont')
    handler(E, r'^Win32ConsoleBuffer::conout\(', lambda E, s, a, ci: Ptr(0, z3.BitVec('conout', 64)), 'Win32ConsoleBuffer::conout')
    lx, ly = z3.BitVecs('largest.X largest.Y', 16)
    st.assume(z3.And(lx >= 1, ly >= 1))
    handler(E, r'^GetLargestConsoleWindowSize$', lambda E, s, a, ci: z3.Concat(ly, lx), 'GetLargestConsoleWindowSize: at least one cell')
    mn = lambda a, b: z3.If(b < a, b, a)
    vc, vr = mn(cols, sx16(lx)), mn(rows, sx16(ly))

    def move(E, s, a, ci):
        I = E.now(s)
        l, t, r, b = rect_get(E, s, a[1])
        E.oblige(s, a[0].oid == E.buf.oid, 'precondition', 'the scraper\'s console buffer')
        E.oblige(s, E.is_frozen(s), 'precondition', 'the window is moved only while the console is frozen')
        sz = s.ghost['sized'] is not None
        w, h = (vc, vr) if sz else (mn(vc, I.X), mn(vr, I.Y))
        E.oblige(s, z3.And(l == 0, r == w - 1, b - t == h - 1), 'precondition', 'the window gets the size of the terminal' if sz else 'the window is made no greater than its new size')
        E.oblige(s, z3.Implies(I.Y >= vr, z3.And(t >= 0, z3.Or(b < I.Y, b < D0) if sz and not direct else b < I.Y)), 'precondition', 'the window stays in the buffer')
        E.oblige(s, z3.Implies(z3.And(I.Y >= vr, I.cy >= I.wt, I.cy <= I.wb), z3.And(t <= I.cy, I.cy <= b)), 'precondition', 'a cursor in the window stays in it')
        if sz and not direct:
            E.oblige(s, z3.Implies(z3.Not(z3.And(I.cy >= I.wt, I.cy <= I.wb)), D0 <= b + 1), 'precondition', 'rows sent to the terminal are not below the window')
        g(s, moved=t, gen=s.ghost['gen'] + 1)
    handler(E, r'^Win32ConsoleBuffer::moveWindow\(', move, 'Win32ConsoleBuffer::moveWindow')

    def size(E, s, a, ci):
        x, y = (sx16(z3.Extract(15 + o, o, bv(a[1], 32))) for o in (0, 16)) if not isinstance(a[1], Ptr) else (sx16(E.load_raw(s, padd(a[1], o), 2, None)) for o in (0, 2))
        E.oblige(s, a[0].oid == E.buf.oid, 'precondition', 'the scraper\'s console buffer')
        E.oblige(s, not E.is_frozen(s), 'precondition', 'the buffer is resized only while the console runs')
        E.oblige(s, s.ghost['moved'] is not None, 'precondition', 'the window was made small enough before')
        E.oblige(s, z3.And(x == cols, y == z3.If(o0.wb - o0.wt + 1 == o0.Y, rows, z3.If(rows > o0.Y, rows, o0.Y))), 'precondition', 'the buffer gets the terminal\'s width, and its height if it had no scrollback, else keeps its own')
        g(s, sized=1, gen=s.ghost['gen'] + 1)
    handler(E, r'^Win32ConsoleBuffer::resizeBufferRange\(', size, 'Win32ConsoleBuffer::resizeBufferRange')
    if direct:
        E.loops = [reset_loop(E, r'^Scraper::resizeImpl')]
        k = z3.BitVec('k', 64)
    E.targets.append('Scraper::resizeImpl')
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::resizeImpl\('), [S.ptr, o0.p]):
        if not isinstance(o, Ret):
            continue
        E.oblige(s, E.is_frozen(s), 'postcondition', 'the console is frozen')
        E.oblige(s, s.ghost['moved'] is not None and s.ghost['sized'] is not None, 'postcondition', 'the buffer and the window were resized')
        sync, top, D, k1, P, M = fields(E, s)
        E.oblige(s, top == s.ghost['moved'], 'postcondition', 'the window\'s place is on record')
        if direct:
            E.oblige(s, z3.Implies(z3.ULT(k, LINES), z3.Select(s.ghost['mem'], k) == UNSET), 'postcondition', 'nothing of what was sent is remembered: the whole screen is sent again')
            continue
        E.oblige(s, s.ghost['erased'] is not None and z3.And(s.ghost['erased'][0] == 0, s.ghost['erased'][1] == o0.wt), 'postcondition', 'the rows above the window were erased')
        E.oblige(s, z3.And(k1 == k0, P == P0, D == D0), 'frame', 'what was scraped stays scraped')
        # assumed of the console and its programs: a window moved above the marker comes with its erasure
        s.assume(z3.And(top >= 0, top < LINES, z3.Implies(sync != -1, top >= z3.If(sync < 1, 1, sync) + MARK)))
        for n, c in wf(E, s):
            E.oblige(s, c, 'invariant', n)
        E.oblige(s, known(E, s, v), 'invariant', 'what is remembered of a line is what the terminal shows, but for the rows erased')


def unit_entry(ctx):
    """resizeWindow, scrapeBuffer"""
    for name, force in (('resizeWindow', True), ('scrapeBuffer', False)):
        E, st, S, C = setup(ctx)
        S.set(st, 'm_consoleBuffer', Ptr(0, 0))
        out = E.new_cells(st, 24, 'final')
        size = z3.BitVec('newSize', 32)
        p0 = E.load_raw(st, S.p('m_ptySize'), 2, None), E.load_raw(st, padd(S.p('m_ptySize'), 2), 2, None)
        g(st, synced=0)

        def sync(E, s, a, ci):
            E.oblige(s, S.get(s, 'm_consoleBuffer', True).oid == E.buf.oid, 'precondition', 'the given console buffer is used')
            E.oblige(s, (bv(a[1], 1) == 1) == z3.BoolVal(force), 'precondition', 'a resize is forced by resizeWindow alone')
            E.oblige(s, a[2].oid == out.oid and a[2].off == 0, 'precondition', 'the caller\'s description is filled in')
            want = [z3.Extract(15, 0, size), z3.Extract(31, 16, size)] if force else [bv(x, 16) for x in p0]
            E.oblige(s, z3.And([bv(E.load_raw(s, padd(S.p('m_ptySize'), o), 2, None), 16) == w for o, w in zip((0, 2), want)]), 'precondition', 'the terminal\'s size is the last one given')
            g(s, synced=s.ghost['synced'] + 1)
        contract(E, r'^Scraper::syncConsoleContentAndSize\(', sync, 'Scraper::syncConsoleContentAndSize (unit)')
        E.targets.append('Scraper::' + name)
        f = E.find_fn(r'^Scraper::%s\(' % name)
        if force:
            c = E.new_cells(st, 4, 'size')
            E.store_raw(st, c, z3.Extract(15, 0, size), 2)
            E.store_raw(st, padd(c, 2), z3.Extract(31, 16, size), 2)
        for s, o in E.exec_fn(st, f, [S.ptr, E.buf] + ([c] if force else []) + [out]):
            E.oblige(s, s.ghost['synced'] == 1, 'postcondition', 'the console is scraped')


UNITS = [('lemma', unit_lemma), ('scanForDirtyLines', unit_scan), ('syncMarkerText', unit_marker_text), ('findSyncMarker', unit_find_marker), ('createSyncMarker', unit_create_marker),
         ('resetConsoleTracking', unit_reset), ('clearBufferLines', unit_clear_lines), ('markEntireWindowDirty, attributesMask', unit_small), ('directScrapeOutput', unit_direct)]
UNITS += [('scrollingScrapeOutput, %s, marker scrolled, window %s' % ('tentative' if t else 'frozen', 'moved up' if up else 'not moved up'), scroll((t, 'scrolled', False, up))) for t in (True, False) for up in (True, False)]
UNITS += [('scrollingScrapeOutput, %s, %s' % ('tentative' if t else 'frozen', n), scroll((t, m, f))) for t in (False, True) for m, f, n in
          (('', True, 'after a reset'), ('', False, 'without a marker'), ('in place', False, 'marker in place'), ('lost', False, 'marker lost'))]
UNITS += [('syncConsoleContentAndSize, %s, %s' % ('frozen' if f else 'running', 'resize' if r else 'scrape'), (lambda f, r: lambda ctx: unit_sync(ctx, f, r))(f, r)) for f in (False, True) for r in (False, True)]
UNITS += [('resizeImpl, direct mode', lambda ctx: unit_resize(ctx, True)), ('resizeImpl, scrolling', lambda ctx: unit_resize(ctx, False)), ('resizeWindow, scrapeBuffer', unit_entry)]
DEPS = ['S01', 'S02', 'T03']
HARNESS = ['h_s03']
JOBS = 8
LIMIT = 700
ASSUMPTIONS = ['a marker found at a row above its own means that the console scrolled by as many rows (no program prints the marker text)',
               'the console scrolls by fewer than 2^40 rows between two resets',
               'a window moved above the marker row by a program comes with the erasure of the marker (clear-screen commands do both)',
               'the console describes itself consistently: window and cursor inside the buffer; a frozen console does not change']
RULE = 'harness: histories of console writes, scrolls, clears, cursor moves, mode changes and resizes on a synthetic console, with the terminal output interpreted and compared; distinct = histories by hash'
