"""Vocabulary for agent/Terminal.cc: what an ECMA-48/xterm terminal does with the
bytes winpty sends it.  The pipe's write() is replaced by its contract
('the bytes are appended to the output stream'), and the stream is interpreted
by this ghost terminal as it is produced."""
from common import *

SRC = 'src/agent/Terminal.cc'

# -- SGR state of a terminal: (fore, back, bold, inverse, conceal, underline)
#    fore/back: None (default), 0..7, 8..15


def sgr_apply(params):
    fore = back = None
    bold = inv = con = und = False
    for p in params:
        if p == 0:
            fore = back = None
            bold = inv = con = und = False
        elif p == 1: bold = True
        elif p == 4: und = True
        elif p == 7: inv = True
        elif p == 8: con = True
        elif 30 <= p <= 37: fore = p - 30
        elif 40 <= p <= 47: back = p - 40
        elif 90 <= p <= 97: fore = 8 + p - 90
        elif 100 <= p <= 107: back = 8 + p - 100
        else:
            return None
    return (fore, back, bold, inv, con, und)


def sgr_spec(attr):
    """what a 16-bit console attribute must look like on the terminal"""
    def pal(r, g, b, i):
        # console palette (blue=1, red=4) to ANSI palette (red=1, blue=4)
        return (1 if attr & r else 0) | (2 if attr & g else 0) | (4 if attr & b else 0) | (8 if attr & i else 0)
    fore = pal(0x4, 0x2, 0x1, 0x8)
    back = pal(0x40, 0x20, 0x10, 0x80)
    if attr & 0x4000:
        fore, back = back, fore
    con = fore == back
    und = bool(attr & 0x8000)
    if back == 0:
        if fore == 7:
            return (None, None, False, False, con, und)
        if fore == 15:
            return (None, None, True, False, con, und)
        return (fore, None, False, False, con, und)
    if back == 15:
        if fore in (7, 0):
            return (None, None, False, True, con, und)
        return (None, fore, False, True, con, und)
    return (fore, back, False, False, con, und)


def parse_sgr(bs):
    """params of 'CSI n;n;... m' or None"""
    if bs[:2] != b'\x1b[' or bs[-1:] != b'm':
        return None
    try:
        return [int(x) for x in bs[2:-1].split(b';')]
    except ValueError:
        return None


def new_string(E, st, name='out'):
    p = E.new_cells(st, 32, name)
    seq_put(E, st, p, new_seq(E, st, 'char', 0, {0: FArr.const(8, 0)}, True, name))
    return p


def const_bytes(E, st, p, n=None):
    """bytes of a constant string at pointer p (up to NUL when n is None); None if not constant"""
    r = []
    i = 0
    while n is None or i < n:
        v = E.load(st, Ptr(p.oid, add64(p.off, i)), ('i', 8), E.mods[0])
        if not isinstance(v, int):
            return None
        if n is None and v == 0:
            break
        r.append(v)
        i += 1
    return bytes(r)


MASK = 0xC0FF


def unit_color(ctx):
    """outputSetColor: one SGR sequence that puts the terminal into the colour
    state the attribute denotes; for every attribute, one path per value"""
    E = ctx.mk([SRC])
    f = E.find_fn(r'outputSetColor\(')
    st = State()
    E.inputs['attr'] = attr = z3.BitVec('attr', 32)
    st.assume(attr & ~MASK == 0)
    out = new_string(E, st)
    E.ghost_width = {}
    n = 0
    covered = set()
    for s, o in E.exec_fn(st, f, [out, attr]):
        for s2, av in E.concretize(s, attr, 32, limit=1100):
            q = seq_get(E, s2, out)
            bs = const_bytes(E, s2, Ptr(q.oid, 0), q.len) if isinstance(q.len, int) else None
            ps = parse_sgr(bs) if bs else None
            ok = ps is not None and ps[0] == 0 and sgr_apply(ps) == sgr_spec(av)
            E.oblige(s2, bool(ok), 'postcondition', 'SGR sequence denotes the attribute')
            # dark grey on black must fall back to light grey on terminals without 9X
            if ok and sgr_spec(av)[0] is not None and sgr_spec(av)[0] >= 8:
                basic = sgr_apply([p for p in ps if not (90 <= p <= 107)])
                want = 7 if sgr_spec(av)[:2] == (8, None) else sgr_spec(av)[0] - 8
                E.oblige(s2, basic is not None and basic[0] == want, 'postcondition', 'bright colours carry a basic-palette fallback')
            covered.add(av)
            n += 1
    E.oblige(st, len(covered) == 1024, 'vacuity', 'all 1024 colour attributes were reached')


# -- ghost terminal for cursor / mode tracking ---------------------------------

MOUSE_ON = ('?1000', '?1002', '?1003', '?1015', '?1006')


class TermGhost:
    """interprets written bytes; state lives in st.ghost"""

    def __init__(self, E, plain):
        self.E = E
        self.plain = plain

    def init(self, st):
        g = st.ghost
        g['row'] = z3.BitVec('g_row', 64)
        g['col'] = z3.BitVec('g_col', 32)
        g['hidden'] = z3.Bool('g_hidden')
        g['mouse'] = z3.Bool('g_mouse')
        g['sgr'] = 'any'
        g['cleared'] = 0
        g['erased'] = 0

    def write(self, E, st, text, args=()):
        """text: bytes with %d/%u standing for args"""
        st.ghost = dict(st.ghost)
        g = st.ghost
        i = 0
        ai = 0
        bad = None
        while i < len(text):
            c = text[i:i + 1]
            if c == b'\x1b':
                E.oblige(st, z3.Not(boolv(self.plain)), 'postcondition', 'no escape sequence in plain mode')
                m = re.match(rb'\x1b\[([0-9;?%du]*)([A-Za-z])', text[i:])
                if not m:
                    bad = 'malformed escape sequence'
                    break
                par, fin = m.group(1).decode(), m.group(2).decode()
                if par.endswith('%') :
                    # "%dG": the conversion letter was taken as the final byte
                    m = re.match(rb'\x1b\[(%[du])([A-Za-z])', text[i:])
                    par, fin = m.group(1).decode(), m.group(2).decode()
                i += m.end()
                arg = None
                if '%' in par:
                    arg = args[ai]
                    ai += 1
                    arg = bv(arg, 32)
                if fin == 'A':
                    k = arg if arg is not None else bv(int(par or 1), 32)
                    E.oblige(st, k != 0, 'postcondition', 'cursor-up count is at least one')
                    g['row'] = bv(g['row'], 64) - z3.ZeroExt(32, k)
                elif fin == 'G':
                    k = arg if arg is not None else bv(int(par or 1), 32)
                    E.oblige(st, k >= 1, 'postcondition', 'column parameter is at least one')
                    g['col'] = k - 1
                elif fin == 'K' and par in ('0', ''):
                    g['erased'] = 1
                elif fin == 'm':
                    g['sgr'] = par
                elif fin == 'H' and par in ('1;1', ''):
                    g['home'] = 1
                    g['col'] = bv(0, 32)
                elif fin == 'J' and par == '2':
                    g['cleared'] = 1
                    g['clear_sgr'] = g['sgr']
                    g['clear_home'] = g.get('home', 0)
                elif fin in 'hl' and par == '?25':
                    g['hidden'] = z3.BoolVal(fin == 'l')
                elif fin in 'hl' and par.startswith('?1'):
                    g['modes'] = g.get('modes', ()) + ((par, fin),)
                else:
                    bad = 'unexpected control sequence'
                    break
            elif c == b'\r':
                g['col'] = bv(0, 32)
                i += 1
            elif c == b'\n':
                g['row'] = bv(g['row'], 64) + 1
                i += 1
            else:
                bad = 'unexpected byte %r' % c
                break
        if bad:
            E.oblige(st, False, 'postcondition', 'output is a control sequence the protocol knows: ' + bad)

    def install(self, E):
        def h_fmt(E, st, args, ci):
            # winpty_snprintf(char(&out)[N], fmt, ...)
            out = args[0]
            k = 1 if isinstance(args[1], Ptr) else 2
            fmt = const_bytes(E, st, args[k])
            if fmt is None:
                raise Unsupported('format string')
            vals = args[k + 1:]
            st.ghost = dict(st.ghost)
            st.ghost['fmt:%s' % out.oid] = (fmt, tuple(vals))
            # must fit: 32-bit decimals are at most 11 characters
            m = re.search(r'char \(&\)\s*\[(\d+)', ci.dn) or re.search(r'<(\d+)', ci.dn)
            size = int(re.search(r'(\d+)', m.group(1)).group(1)) if m else E.getobj(st, out, 'write').size
            need = len(re.sub(rb'%[du]', b'', fmt)) + 11 * len(vals) + 1
            E.oblige(st, need <= size, 'memory', 'formatted text fits its buffer')
            r = fresh('snprintf', 32)
            return r
        handler(E, r'winpty_snprintf', h_fmt, 'winpty_snprintf formats %d/%u as decimal text (verified by D02)')

        def h_write(E, st, args, ci):
            p = args[1]
            tag = st.ghost.get('fmt:%s' % p.oid)
            if tag is not None:
                self.write(E, st, tag[0], tag[1])
                return None
            if len(args) == 3:
                if not isinstance(args[2], int):
                    raise Unsupported('write of unknown text')
                b = const_bytes(E, st, p, args[2])
            else:
                b = const_bytes(E, st, p)
            if b is None:
                raise Unsupported('write of unknown text')
            self.write(E, st, b)
            return None
        handler(E, r'^NamedPipe::write\(', h_write, 'NamedPipe::write appends the bytes to the output stream (verified by N01)')


def new_terminal(E, st, plain=None, color=None):
    T = new_object(E, st, 'Terminal')
    T.plain = z3.Bool('plain') if plain is None else plain
    T.set(st, 'm_plainMode', bv(T.plain, 8))
    T.color = z3.Bool('outputColor') if color is None else color
    T.set(st, 'm_outputColor', bv(T.color, 8))
    pipe = E.new_cells(st, 8, 'pipe')
    T.set(st, 'm_output', pipe)
    n = z3.BitVec('lineDataLen', 64)
    st.assume(z3.ULE(n, 1 << 20))
    T.datalen = n
    T.data = {0: FArr.base(16, 'cellchar'), 2: FArr.base(16, 'cellattr')}
    seq_put(E, st, T.p('m_lineData'), new_seq(E, st, '_CHAR_INFO', n, dict(T.data), False, 'm_lineData'))
    seq_put(E, st, T.p('m_termLineWorkingBuffer'), new_seq(E, st, 'char', fresh('wlen', 64), None, True, 'termLine'))
    for m, w in (('m_remoteLine', 64), ('m_remoteColumn', 32), ('m_remoteColor', 32)):
        v = z3.BitVec(m, w)
        T.set(st, m, v)
        setattr(T, m, v)
    for m in ('m_lineDataValid', 'm_cursorHidden', 'm_mouseModeEnabled'):
        v = z3.Bool(m)
        T.set(st, m, bv(v, 8))
        setattr(T, m, v)
    return T


def b8(v):
    return z3.Extract(0, 0, v) == 1 if is_sym(v) else z3.BoolVal(bool(v & 1))


def rep_inv(E, st, T):
    """what the class remembers about the terminal is what the terminal is"""
    g = st.ghost
    np = z3.Not(boolv(T.plain))
    return [
        ('remembered line is the cursor line', z3.Implies(np, bv(T.get(st, 'm_remoteLine'), 64) == g['row'])),
        ('remembered column is the cursor column', z3.Implies(np, bv(T.get(st, 'm_remoteColumn'), 32) == g['col'])),
        ('remembered visibility is the terminal\'s', z3.Implies(np, b8(T.get(st, 'm_cursorHidden')) == g['hidden'])),
        ('remembered row data is not longer than the column', z3.Implies(b8(T.get(st, 'm_lineDataValid')), bv(T.seq(st, 'm_lineData').len, 64) == z3.SignExt(32, bv(T.get(st, 'm_remoteColumn'), 32)))),
    ]


def setup(ctx, plain=None):
    E = ctx.mk([SRC])
    st = State()
    T = new_terminal(E, st, plain)
    G = TermGhost(E, T.plain)
    G.init(st)
    G.install(E)
    for nm, c in rep_inv(E, st, T):
        st.assume(c)
    st.assume(z3.And(T.m_remoteColumn >= 0, T.m_remoteColumn <= 1 << 20))
    st.assume(z3.And(T.m_remoteLine >= 0, T.m_remoteLine < 1 << 40))
    E.inputs.update(plain=bv(T.plain, 8), remoteLine=T.m_remoteLine, remoteColumn=T.m_remoteColumn, hidden=bv(T.m_cursorHidden, 8), valid=bv(T.m_lineDataValid, 8), datalen=T.datalen)
    return E, st, T, G


def move_loop(E, T, line):
    def inv(c):
        st = c.st
        rl = bv(T.get(st, 'm_remoteLine'), 64)
        return [('line tracks the newlines sent', z3.Or(boolv(T.plain), rl == st.ghost['row'])),
                ('line does not overshoot', z3.And(rl <= line, rl >= T.m_remoteLine)),
                ('column zero after a newline', z3.Or(boolv(T.plain), rl == T.m_remoteLine, st.ghost['col'] == 0)),
                ('cursor hidden while moving', z3.Or(boolv(T.plain), z3.And(bv(T.get(st, 'm_cursorHidden'), 8) != 0, boolv(st.ghost['hidden']))))]

    def dec(c):
        return bv(line, 64) - bv(T.get(c.st, 'm_remoteLine'), 64)
    return LoopSpec('newlines', inv, decreases=dec)


def post_inv(E, s, T):
    for nm, c in rep_inv(E, s, T):
        E.oblige(s, c, 'postcondition', nm)


def unit_move(ctx):
    E, st, T, G = setup(ctx)
    f = E.find_fn(r'^Terminal::moveTerminalToLine\(')
    line = z3.BitVec('line', 64)
    E.inputs['line'] = line
    st.assume(z3.And(line >= 0, line < 1 << 31, T.m_remoteLine < 1 << 31))
    E.loops = [move_loop(E, T, line)]
    col0 = st.ghost['col']
    for s, o in E.exec_fn(st, f, [T.ptr, line]):
        post_inv(E, s, T)
        E.oblige(s, bv(T.get(s, 'm_remoteLine'), 64) == line, 'postcondition', 'the requested line is reached')
        E.oblige(s, z3.Or(boolv(T.plain), z3.And(s.ghost['row'] == line)), 'postcondition', 'the terminal cursor is on the requested line')
        moved = line != T.m_remoteLine
        E.oblige(s, z3.Implies(z3.And(moved, z3.Not(boolv(T.plain))), s.ghost['hidden']), 'postcondition', 'the cursor is hidden while it is moved between lines')
        E.oblige(s, z3.Implies(moved, z3.And(bv(T.get(s, 'm_remoteColumn'), 32) == 0, bv(T.seq(s, 'm_lineData').len, 64) == 0)), 'postcondition', 'a new line starts with nothing known about it')


def unit_show(ctx):
    E, st, T, G = setup(ctx)
    f = E.find_fn(r'^Terminal::showTerminalCursor\(')
    line, col = z3.BitVec('line', 64), z3.BitVec('column', 32)
    E.inputs.update(line=line, column=col)
    st.assume(z3.And(line >= 0, line < 1 << 31, T.m_remoteLine < 1 << 31, col >= 0, col < 32767))
    E.loops = [move_loop(E, T, line)]
    for s, o in E.exec_fn(st, f, [T.ptr, col, line]):
        post_inv(E, s, T)
        np = z3.Not(boolv(T.plain))
        E.oblige(s, z3.Implies(np, z3.And(s.ghost['row'] == line, s.ghost['col'] == col)), 'postcondition', 'the terminal cursor is at the requested cell')
        E.oblige(s, z3.Implies(np, z3.Not(s.ghost['hidden'])), 'postcondition', 'the terminal cursor is visible')


def unit_hide(ctx):
    E, st, T, G = setup(ctx)
    f = E.find_fn(r'^Terminal::hideTerminalCursor\(')
    for s, o in E.exec_fn(st, f, [T.ptr]):
        post_inv(E, s, T)
        E.oblige(s, z3.Or(boolv(T.plain), s.ghost['hidden']), 'postcondition', 'the terminal cursor is hidden')
        E.oblige(s, z3.And(s.ghost['row'] == st_row(st), s.ghost['col'] == st_col(st)), 'frame', 'hiding does not move the cursor')


def st_row(st):
    return z3.BitVec('g_row', 64)


def st_col(st):
    return z3.BitVec('g_col', 32)


def unit_reset(ctx):
    E, st, T, G = setup(ctx)
    f = E.find_fn(r'^Terminal::reset\(')
    nl, how = z3.BitVec('newLine', 64), z3.BitVec('sendClear', 32)
    E.inputs.update(newLine=nl, sendClear=how)
    st.assume(z3.Or(how == 0, how == 1))
    for s, o in E.exec_fn(st, f, [T.ptr, how, nl]):
        np = z3.Not(boolv(T.plain))
        clear = z3.And(how == 1, np)
        E.oblige(s, z3.BoolVal(bool(s.ghost['cleared'])) == clear, 'postcondition', 'the screen is cleared exactly when asked to (and not in plain mode)')
        if s.ghost['cleared']:
            E.oblige(s, s.ghost['clear_sgr'] in ('0', ''), 'postcondition', 'the screen is cleared with default colours')
            E.oblige(s, bool(s.ghost['clear_home']), 'postcondition', 'the cursor goes home')
        E.oblige(s, bv(T.get(s, 'm_remoteLine'), 64) == nl, 'postcondition', 'lines are renumbered')
        E.oblige(s, z3.And(bv(T.get(s, 'm_remoteColumn'), 32) == 0, bv(T.seq(s, 'm_lineData').len, 64) == 0), 'postcondition', 'nothing is remembered about the row')
        E.oblige(s, bv(T.get(s, 'm_remoteColor'), 32) == bv(-1, 32), 'postcondition', 'the remembered colour is forgotten')
        E.oblige(s, z3.Implies(np, b8(T.get(s, 'm_cursorHidden')) == s.ghost['hidden']), 'postcondition', 'remembered visibility is the terminal\'s')


def unit_mouse(ctx):
    E, st, T, G = setup(ctx)
    f = E.find_fn(r'^Terminal::enableMouseMode\(')
    en = z3.Bool('enabled')
    E.inputs['enabled'] = bv(en, 8)
    for s, o in E.exec_fn(st, f, [T.ptr, en]):
        on = b8(T.get(s, 'm_mouseModeEnabled'))
        sent = s.ghost.get('modes', ())
        E.oblige(s, z3.Implies(boolv(T.plain), z3.BoolVal(sent == ())), 'postcondition', 'plain mode sends no mode changes')
        np = z3.Not(boolv(T.plain))
        E.oblige(s, z3.Implies(np, on == en), 'postcondition', 'the remembered mouse mode is the requested one')
        change = z3.And(np, T.m_mouseModeEnabled != en)
        if sent:
            # final state of the terminal's modes
            d = dict(sent)
            allset = all(d.get(m) == 'h' for m in MOUSE_ON) and d.get('?1005', 'l') == 'l'
            # 1006 must win over 1015: enabled last
            order = [m for m, _ in sent if m in ('?1015', '?1006')]
            enc_last = order[-1:] == ['?1006']
            alloff = all(d.get(m) == 'l' for m in MOUSE_ON)
            E.oblige(s, z3.Implies(en, z3.BoolVal(allset and enc_last)), 'postcondition', 'enabling switches on every tracking mode with SGR coordinates last')
            E.oblige(s, z3.Implies(z3.Not(en), z3.BoolVal(alloff)), 'postcondition', 'disabling switches off every mode that enabling switched on')
        E.oblige(s, z3.BoolVal(bool(sent)) == change, 'postcondition', 'mode changes are sent exactly when the mode changes')
        E.oblige(s, z3.And(s.ghost['row'] == st_row(st), s.ghost['col'] == st_col(st)), 'frame', 'the cursor does not move')
