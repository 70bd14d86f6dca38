from agentcc import *

SCR = 'src/agent/Scraper.cc'
SRCS = [AG, SCR, 'src/agent/Win32Console.cc']


def scraper(ctx):
    E = ctx.mk([SCR, 'src/agent/Win32Console.cc'])
    st = State()
    S = new_object(E, st, 'Scraper', 'scraper')
    C = new_object(E, st, 'Win32Console', 'console')
    S.set(st, 'm_console', C.ptr)
    C.set(st, 'm_hwnd', Ptr(0, z3.BitVec('hwnd', 64)))
    S.set(st, 'm_consoleBuffer', E.new_cells(st, 16, 'buffer'))
    E.store_raw(st, S.p('m_terminal'), E.new_cells(st, 16, 'terminal'), 8)
    for V, n in ((S, 'm_directMode'), (C, 'm_frozen'), (C, 'm_freezeUsesMark'), (C, 'm_isNewW10')):
        st.assume(z3.ULE(bv(V.get(st, n), 8), 1))
    g(st, real=bv(C.get(st, 'm_frozen'), 8) != 0, moved=0)
    E.C, E.S = C, S

    def send(E, s, a, ci):
        m, w = bv(a[1], 32), bv(a[2], 64)
        cmd = z3.And(m == 0x112, z3.Or(w == 0xFFF2, w == 0xFFF5))
        esc = z3.And(m == 0x102, w == 27)
        E.oblige(s, z3.Or(cmd, esc), 'precondition', 'only mark, select-all and escape are sent')
        E.oblige(s, s.ghost['real'] == esc, 'precondition', 'selection starts only if none is active, and ends only if one is')
        g(s, real=cmd)
        return 0
    handler(E, r'^SendMessageW$', send, 'SendMessage: Mark or SelectAll starts a selection (freezes), Escape ends it')
    for p in (r'^setSmallFont\(',):
        handler(E, p, state(False, 'the font is changed only while the console runs'), 'setSmallFont')
    handler(E, r'^GetLargestConsoleWindowSize$', lambda E, s, a, ci: fresh('largest', 32), 'GetLargestConsoleWindowSize')
    handler(E, r'^Get(StdHandle)$', lambda E, s, a, ci: Ptr(0, fresh('h', 64)), 'GetStdHandle')
    handler(E, r'^Win32ConsoleBuffer::conout\(', lambda E, s, a, ci: Ptr(0, fresh('h', 64)), 'Win32ConsoleBuffer::conout')

    def gci(E, s, a, ci):
        E.store_raw(s, padd(a[1], 4), fresh('visible', 32), 4)
        return fresh('ok', 32)
    handler(E, r'^GetConsoleCursorInfo$', gci, 'GetConsoleCursorInfo')

    def binfo(E, s, a, ci):
        sinfo(E, s, a[0], 'cur')
    handler(E, r'^Win32ConsoleBuffer::bufferInfo\(', binfo, 'Win32ConsoleBuffer::bufferInfo: any')
    handler(E, r'^agentAssertFail\(', lambda E, s, a, ci: NoReturn(), 'a failed assertion ends the agent')
    return E, st, S, C


def frozen(s, E):
    return bv(E.C.get(s, 'm_frozen'), 8) != 0


def may_throw(fn):
    """the callee may also run out of memory"""
    def f(E, s, a, ci):
        t = s.copy()
        r = fn(E, s, a, ci)
        return Outs([(s, Ret(r)), (t, Throw('@_ZTISt9bad_alloc', E.new_cells(t, 16, 'exc')))])
    return f


def state(want, what, note=None):
    def f(E, s, a, ci):
        E.oblige(s, frozen(s, E) if want else z3.Not(frozen(s, E)), 'precondition', what)
        E.oblige(s, s.ghost['real'] == frozen(s, E), 'precondition', 'the console really is in the recorded state')
        return None
    return f


def consistent(E, s):
    E.oblige(s, s.ghost['real'] == frozen(s, E), 'postcondition', 'the console really is in the recorded state')


def unit_set_frozen(ctx):
    E, st, S, C = scraper(ctx)
    w = z3.BitVec('want', 1)
    f0 = bv(C.get(st, 'm_frozen'), 8)
    g(st, msgs=())

    def send(E, s, a, ci):
        E.oblige(s, hv(a[0]) == hv(C.get(s, 'm_hwnd', True)), 'precondition', 'the console window gets the message')
        g(s, msgs=s.ghost['msgs'] + ((bv(a[1], 32), bv(a[2], 64)),))
        return 0
    handler(E, r'^SendMessageW$', send, 'SendMessage')
    E.targets.append('Win32Console::setFrozen')
    E.merge = False
    for s, o in E.exec_fn(st, E.find_fn(r'^Win32Console::setFrozen\('), [C.ptr, z3.If(w == 1, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))]):
        E.oblige(s, (bv(C.get(s, 'm_frozen'), 8) != 0) == (w == 1), 'postcondition', 'the recorded state is the requested one')
        m = s.ghost['msgs']
        E.oblige(s, boolv(len(m) == 0) == ((f0 != 0) == (w == 1)), 'postcondition', 'a message is sent exactly when the state changes')
        E.oblige(s, len(m) <= 1, 'postcondition', 'one message')
        if len(m) == 1:
            mark = bv(C.get(s, 'm_freezeUsesMark'), 8) != 0
            E.oblige(s, z3.If(w == 1, z3.And(m[0][0] == 0x112, m[0][1] == z3.If(mark, w64(0xFFF2), w64(0xFFF5))), z3.And(m[0][0] == 0x102, m[0][1] == 27)), 'postcondition', 'freezing selects, unfreezing sends Escape')


def unit_resize_impl(ctx):
    """Scraper::resizeImpl: frozen on entry and exit; the buffer is resized while it runs, moved while it is frozen"""
    E, st, S, C = scraper(ctx)
    st.assume(frozen(st, E))
    info = E.new_cells(st, 24, 'info')
    sinfo(E, st, info, 'orig')
    fz = 'the window and history are changed only while the console is frozen'
    handler(E, r'^Win32ConsoleBuffer::(clearLines|moveWindow|write)\(', may_throw(state(True, fz)), 'Win32ConsoleBuffer::clearLines, moveWindow')
    handler(E, r'^Win32ConsoleBuffer::resizeBufferRange\(', state(False, 'the buffer is resized only while the console runs'), 'Win32ConsoleBuffer::resizeBufferRange')
    contract(E, r'^Scraper::clearBufferLines\(', lambda E, s, a, ci: None, 'Scraper::clearBufferLines: changes remembered rows only')
    contract(E, r'^Scraper::createSyncMarker\(', may_throw(state(True, fz)), 'Scraper::createSyncMarker (unit)')
    E.fn_overrides['vec:ConsoleLine'] = lines_any
    handler(E, r'^ConsoleLine::reset\(', lambda E, s, a, ci: None, 'ConsoleLine::reset (property S01)')
    # only the frozen state matters here: the rectangles may be any
    def anyrect(E, s, a, ci):
        for i in range(4):
            E.store_raw(s, padd(a[0], 2 * i), fresh('rect', 16), 2)
    handler(E, r'^SmallRect::(ensureLineIncluded|intersected)\(', anyrect, 'SmallRect::ensureLineIncluded: any rectangle')
    handler(E, r'^cursorInWindow\(|anonymous namespace.::cursorInWindow\(', lambda E, s, a, ci: fresh('inwin', 1), 'cursorInWindow: any')
    handler(E, r'^(short|int|long) const& std::(min|max)<', anymin, 'std::min/std::max: either value')
    cols, rows = (z3.SignExt(16, z3.Extract(15 + 16 * i, 16 * i, bv(E.load_raw(st, S.p('m_ptySize'), 4, None), 32))) for i in (0, 1))
    st.assume(z3.And(cols >= 1, cols <= 2500, rows >= 1, rows <= 2000))
    for n in ('m_syncRow', 'm_dirtyLineCount'):
        st.assume(z3.And(bv(S.get(st, n), 32) >= -1, bv(S.get(st, n), 32) <= 40000))
    E.targets.append('Scraper::resizeImpl')
    lp = LoopSpec('reset', lambda c: [], fn=r'Scraper::resizeImpl')
    E.loops = [lp]
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::resizeImpl\('), [S.ptr, info]):
        consistent(E, s)
        if isinstance(o, Ret):
            E.oblige(s, frozen(s, E), 'postcondition', 'frozen when the resize is done')


def anymin(E, s, a, ci):
    w = 2 if 'std::min<short' in ci.dn or 'std::max<short' in ci.dn else 4
    p = E.new_cells(s, w, 'minmax')
    v = fresh('m', 8 * w)
    x, y = (bv(E.load_raw(s, q, w, None), 8 * w) for q in a[:2])
    s.assume(z3.Or(v == x, v == y))
    E.store_raw(s, p, v, w)
    return p


def lines_any(E, st, args, ci, e, meth):
    if meth in ('begin', 'end', 'size', 'operator[]', 'data'):
        sz = class_size(E, 'ConsoleLine')
        if getattr(E, 'lines', None) is None or E.lines.oid not in st.mem:
            E.lines = E.new_arr(st, sz, {0: 8}, 3000, 'lines')
        if meth == 'size':
            return 3000
        return padd(E.lines, 3000 * sz if meth == 'end' else 0)
    raise Unsupported('vector<ConsoleLine>::' + meth)


def unit_sync(ctx):
    """Scraper::syncConsoleContentAndSize: scraped frozen, unless the new console can be read unfrozen"""
    E, st, S, C = scraper(ctx)
    out = E.new_cells(st, 24, 'final')
    force = z3.BitVec('force', 1)
    fz = lambda s: frozen(s, E)
    new10 = bv(C.get(st, 'm_isNewW10'), 8) != 0

    def reset(E, s, a, ci):
        return None
    contract(E, r'^Scraper::resetConsoleTracking\(', may_throw(reset), 'Scraper::resetConsoleTracking')

    def direct(E, s, a, ci):
        E.oblige(s, z3.Or(fz(s), new10), 'precondition', 'the console is scraped frozen, or is one that can be read while it runs')
        consistent(E, s)
        return None
    contract(E, r'^Scraper::directScrapeOutput\(', may_throw(direct), 'Scraper::directScrapeOutput (property S03)')

    def scroll(E, s, a, ci):
        E.oblige(s, z3.Or(fz(s), z3.And(new10, bv(a[3], 1) == 1)), 'precondition', 'the console is scraped frozen, or tentatively on a console that can be read while it runs')
        consistent(E, s)
        return fresh('ok', 1)
    contract(E, r'^Scraper::scrollingScrapeOutput\(', may_throw(scroll), 'Scraper::scrollingScrapeOutput (property S03)')

    def rz(E, s, a, ci):
        E.oblige(s, fz(s), 'precondition', 'the console is resized from the frozen state')
        consistent(E, s)
        t = s.copy()
        nf = fresh('frozen', 8)
        t.assume(z3.ULE(nf, 1))
        C.set(t, 'm_frozen', nf)
        g(t, real=nf != 0)
        return Outs([(s, Ret(None)), (t, Throw('@_ZTISt9bad_alloc', E.new_cells(t, 16, 'exc')))])
    contract(E, r'^Scraper::resizeImpl\(', rz, 'Scraper::resizeImpl: frozen on entry and exit (unit resizeImpl)')
    E.targets.append('Scraper::syncConsoleContentAndSize')
    f0 = frozen(st, E)
    for s, o in E.exec_fn(st, E.find_fn(r'^Scraper::syncConsoleContentAndSize\('), [S.ptr, z3.If(force == 1, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), out]):
        consistent(E, s)
        if isinstance(o, Ret):
            E.oblige(s, z3.Implies(z3.Or(f0, force == 1, z3.Not(new10)), fz(s)), 'postcondition', 'the console is not unfrozen')


def unit_detect(ctx):
    """detectNewWindows10Console: the console runs again afterwards"""
    E, st, A, C, f0 = console(ctx)
    st.assume(z3.Not(st.ghost['real']))
    handler(E, r'^isAtLeastWindows8\(', lambda E, s, a, ci: fresh('w8', 1), 'isAtLeastWindows8')
    B = E.new_cells(st, 16, 'buffer')
    handler(E, r'^Win32ConsoleBuffer::(moveWindow|resizeBuffer|setCursorPosition)\(', lambda E, s, a, ci: None, 'Win32ConsoleBuffer operations')
    handler(E, r'^setSmallFont\(', lambda E, s, a, ci: None, 'setSmallFont')
    handler(E, r'^Win32ConsoleBuffer::bufferInfo\(', lambda E, s, a, ci: (sinfo(E, s, a[0], 'cur'), None)[1], 'Win32ConsoleBuffer::bufferInfo: any')
    for n in ('bufferSize', 'cursorPosition'):
        handler(E, r'^Win32ConsoleBuffer::%s\(' % n, lambda E, s, a, ci: E.store_raw(s, a[0], fresh('pos', 32), 4), 'Win32ConsoleBuffer::%s' % n)
    handler(E, r'^Win32ConsoleBuffer::conout\(', lambda E, s, a, ci: Ptr(0, fresh('h', 64)), 'Win32ConsoleBuffer::conout')
    handler(E, r'^GetLargestConsoleWindowSize$', lambda E, s, a, ci: fresh('largest', 32), 'GetLargestConsoleWindowSize')
    handler(E, r'^agentAssertFail\(', lambda E, s, a, ci: NoReturn(), 'a failed assertion ends the agent')
    E.targets.append('detectNewWindows10Console')
    for s, o in E.exec_fn(st, E.find_fn(r'detectNewWindows10Console\('), [C.ptr, B]):
        if isinstance(o, Ret):
            E.oblige(s, z3.And(z3.Not(s.ghost['real']), bv(C.get(s, 'm_frozen'), 8) == 0), 'postcondition', 'the console runs after the test')


UNITS = [('setFrozen', unit_set_frozen), ('resizeImpl', unit_resize_impl), ('syncConsoleContentAndSize', unit_sync), ('detectNewWindows10Console', unit_detect),
         ('resizeWindow', unit_resize_window), ('scrapeBuffers', unit_scrape_buffers)]
HARNESS = [('h_agent', ['--mode', 'c01']), 'h_s03']
