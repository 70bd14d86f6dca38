from conin import *

SRCS = [SRC]
LIMIT = 420
JOBS = 8
HARNESS = [('h_input', ['--mode', 'i02'])]


def unit_dsr(ctx):
    E = ctx.mk(SRCS)
    E.merge = 'leaf'
    E.lean = True
    st = State()
    I = Input(E, st)
    f = E.find_fn(r'matchDsr\(')
    for s, o in E.exec_fn(st, f, [I.ptr, I.n]):
        for s2, r, v in walk(E, s, I, DSR):
            E.oblige(s2, bv(o.v, 32) == w32(r), 'postcondition', 'a cursor-position report is ESC [ row ; column R and nothing else')
            E.oblige(s2, z3.Or(bv(o.v, 32) == -1, z3.And(bv(o.v, 32) >= 0, bv(o.v, 32) <= I.n)), 'postcondition', 'the match stays inside the input')


def mouse_unit(kind, k):
    def unit(ctx):
        E = ctx.mk(SRCS)
        E.merge = 'leaf'
        E.lean = True
        minmax(E)
        st = State()
        I = Input(E, st)
        third = z3.And(I.b(0) == 0x1b, I.b(1) == ord('['), I.n >= 3)
        if kind == 'other':
            st.assume(z3.Not(z3.And(third, z3.Or(I.b(2) == ord('<'), I.digit(2)))))
        else:
            at = 3 if kind == '1006' else 2
            st.assume(z3.And(third, I.b(2) == ord('<') if kind == '1006' else I.digit(2)))
            for i in range(min(k, 7)):
                st.assume(I.digit(at + i))
            if k < 8:
                st.assume(z3.Not(I.digit(at + k)))
            else:
                st.assume(I.digit(at + 7))
        f = E.find_fn(r'matchMouseRecord\(')
        out = new_object(E, st, 'MouseRecord', 'record')
        cl = layout(E, '_COORD') if True else None
        w = z3.BitVec('windowSize', 32)
        st.assume(z3.And(w >= 1, w <= 32767))
        for s, o in E.exec_fn(st, f, [I.ptr, I.n, out.ptr]):
            r = bv(o.v, 32)
            forms = {'1006': [M1006], '1015': [M1015], 'other': [MDEF]}[kind]
            for s2, n, v in walk(E, s, I, forms[0]):
                E.oblige(s2, r == w32(n), 'postcondition', 'exactly the mouse reports of this encoding are matched, beginnings of them ask for more')
                E.oblige(s2, z3.Or(r == -1, z3.And(r >= 0, r <= I.n)), 'postcondition', 'the match stays inside the input')
                if n <= 0:
                    continue
                fl = bv(out.get(s2, 'flags'), 32)
                px, py = out.at('coord')[0], None
                X = z3.SignExt(16, bv(E.load_raw(s2, px, 2, None), 16))
                Y = z3.SignExt(16, bv(E.load_raw(s2, Ptr(px.oid, add64(px.off, 2)), 2, None), 16))
                rel = bv(out.get(s2, 'release'), 8) != 0
                if kind == 'other':
                    z = lambda b, off: z3.ZeroExt(24, b - off)
                    want = (z(v['flags'], 32), z(v['x'], 33), z(v['y'], 33), z3.BoolVal(False))
                elif kind == '1006':
                    want = (v['flags'], v['x'] - 1, v['y'] - 1, v['end'] == ord('m'))
                else:
                    want = (v['flags'] - 32, v['x'] - 1, v['y'] - 1, z3.BoolVal(False))
                E.oblige(s2, fl & 0x7f == want[0] & 0x7f, 'postcondition', 'button and modifier bits are the reported ones')
                # the simplest way to be right within every window (lemma unit), or else any way
                for got, exp, nm in ((X, want[1], 'column'), (Y, want[2], 'row')):
                    c = clampw(got, w) == clampw(exp, w)
                    if E.must(s2, got == sat16(exp)):
                        c = got == sat16(exp)
                    E.oblige(s2, c, 'postcondition', nm + ' is the reported 0-based one, within any window')
                E.oblige(s2, rel == want[3], 'postcondition', 'press or release as reported')
    return unit


def unit_scan(ctx):
    """ConsoleInput::scanMouseInput, matchMouseRecord by contract: one event (or
    none) with the reported content; button state and double clicks kept exactly"""
    E = ctx.mk(SRCS)
    quiet_trace(E)
    minmax(E)
    st = State()
    I = Input(E, st)
    V = new_object(E, st, 'ConsoleInput', 'this')
    B = lambda n, w: z3.BitVec(n, w)
    flags, X, Y, rel, r = B('flags', 32), B('recX', 16), B('recY', 16), z3.Bool('release'), B('matchResult', 32)
    mi, qe = z3.Bool('mouseInput'), z3.Bool('quickEdit')
    mbs = B('buttonState', 32)
    tick, dct = B('tick', 32), B('doubleClickTime', 32)
    E.inputs.update(flags=flags, X=X, Y=Y, release=bv(rel, 8), result=r, buttonState=mbs, tick=tick, dctime=dct)
    V.set(st, 'm_mouseInputEnabled', bv(mi, 8))
    V.set(st, 'm_quickEditEnabled', bv(qe, 8))
    V.set(st, 'm_mouseButtonState', mbs)
    W = {n: B('win' + n, 16) for n in ('Left', 'Top', 'Right', 'Bottom')}
    wp = V.p('m_mouseWindowRect')
    for i, n in enumerate(('Left', 'Top', 'Right', 'Bottom')):
        E.store_raw(st, Ptr(wp.oid, add64(wp.off, 2 * i)), W[n], 2)
        E.inputs['win' + n] = W[n]
    sx = lambda v: z3.SignExt(16, v)
    ww, wh = sx(W['Right']) - sx(W['Left']) + 1, sx(W['Bottom']) - sx(W['Top']) + 1
    st.assume(z3.And(W['Left'] >= 0, W['Top'] >= 0, ww >= 1, wh >= 1, ww <= 32767, wh <= 32767))
    dl = layout(E, 'DoubleClickDetection')
    dp = V.p('m_doubleClick')
    dm = lambda n, o=0: Ptr(dp.oid, add64(dp.off, dl[n][0] + o))
    db, dx, dy, dt, drl = B('dcButton', 32), B('dcX', 16), B('dcY', 16), B('dcTick', 32), z3.Bool('dcReleased')
    E.store_raw(st, dm('button'), db, 4)
    E.store_raw(st, dm('pos'), dx, 2)
    E.store_raw(st, dm('pos', 2), dy, 2)
    E.store_raw(st, dm('tick'), dt, 4)
    E.store_raw(st, dm('released'), bv(drl, 8), 1)
    E.inputs.update(dcButton=db, dcX=dx, dcY=dy, dcTick=dt)
    handler(E, r'^GetTickCount$', lambda E, st, a, ci: tick, 'Win32 GetTickCount')
    handler(E, r'^GetDoubleClickTime$', lambda E, st, a, ci: dct, 'Win32 GetDoubleClickTime')

    def match(E, s, args, ci):
        M = View(E, 'MouseRecord', args[2])
        E.oblige(s, bv(args[1], 32) == I.n, 'precondition', 'the whole input is offered for matching')
        M.set(s, 'flags', flags)
        M.set(s, 'release', bv(rel, 8))
        p = M.p('coord')
        E.store_raw(s, p, X, 2)
        E.store_raw(s, Ptr(p.oid, add64(p.off, 2)), Y, 2)
        s.assume(z3.And(r >= -1, r <= I.n))
        return r
    contract(E, r'matchMouseRecord\(', match, 'matchMouseRecord (verified by the other units)')
    rp, n0, old = records(E, st)
    k = z3.BitVec('k', 64)
    E.inputs['k'] = k
    f = E.find_fn(r'ConsoleInput::scanMouseInput\(')
    lo16 = lambda v: z3.Extract(15, 0, v)
    # the specification
    button = flags & 3
    wheel = flags & 0x40 != 0
    flag = z3.If(button == 0, w32(1), z3.If(button == 1, w32(4), w32(2)))
    held = mbs & flag != 0
    newpress = z3.And(z3.Not(wheel), button != 3, z3.Not(rel), z3.Not(held))
    isdbl = z3.And(newpress, db == flag, dx == X, dy == Y, z3.ULT(tick - dt, dct))
    mbs2 = z3.If(wheel, mbs, z3.If(button == 3, w32(0), z3.If(rel, mbs & ~flag, mbs | flag)))
    bstate = mbs2 | z3.If(wheel, z3.If(button == 0, w32(0x00780000), w32(0xff880000)), w32(0))
    eflags = z3.If(wheel, w32(4), z3.If(flags & 0x20 != 0, w32(1), w32(0)) | z3.If(isdbl, w32(2), w32(0)))
    ctl = z3.If(flags & 4 != 0, w32(SHIFT), w32(0)) | z3.If(flags & 8 != 0, w32(LALT), w32(0)) | z3.If(flags & 0x10 != 0, w32(LCTRL), w32(0))
    valid = z3.And(r > 0, z3.Not(z3.And(wheel, z3.UGE(button, 2))))
    sent = z3.And(valid, mi, z3.Not(qe))
    relother = z3.And(z3.Not(wheel), button != 3, rel, flag != db)
    # what double-click detection remembers afterwards
    db2 = z3.If(z3.And(newpress, z3.Not(isdbl)), flag, z3.If(z3.Or(isdbl, relother), w32(0), db))
    todo = []
    chk = lambda s, c, k, n: todo.append((c, k, n))
    for s, o in E.exec_fn(st, f, [V.ptr, rp, I.ptr, I.n]):
        del todo[:]
        chk(s, bv(o.v, 32) == r, 'postcondition', 'the match result is passed on')
        R, n = rec(E, s, rp, n0)
        Rk, _ = rec(E, s, rp, k)
        chk(s, n == z3.If(sent, n0 + 1, n0), 'postcondition', 'one event is sent exactly for a valid report while the program takes mouse input')
        q = farrs_of(E, s, seq_get(E, s, rp))
        chk(s, z3.Implies(z3.ULT(k, n0), z3.And(*[bv(q[o2].read(k), 16) == bv(old[o2].read(k), 16) for o2 in old])), 'postcondition', 'earlier records are kept')
        if E.must(s, z3.Not(sent)):
            im = lambda c: True
        elif E.must(s, sent):
            im = lambda c: c
        else:
            im = lambda c: z3.Implies(sent, c)
        chk(s, im(R['type'] == MOUSE_EVENT), 'postcondition', 'it is a mouse event')
        E.oblige(s.copy(), im(R['X'] == W['Left'] + lo16(clampw(sx(X), ww))), 'postcondition', 'column inside the window')
        E.oblige(s.copy(), im(R['Y'] == W['Top'] + lo16(clampw(sx(Y), wh))), 'postcondition', 'row inside the window')
        chk(s, im(R['ctl'] == ctl), 'postcondition', 'shift, alt and control as reported')
        chk(s, im(R['buttons'] == bstate), 'postcondition', 'pressed buttons and wheel direction')
        chk(s, im(R['flags'] == eflags), 'postcondition', 'moved, wheel and double-click marks')
        chk(s, z3.Implies(valid, bv(V.get(s, 'm_mouseButtonState'), 32) == mbs2), 'invariant', 'the buttons held down are kept exactly')
        chk(s, z3.Implies(z3.Not(valid), bv(V.get(s, 'm_mouseButtonState'), 32) == mbs), 'invariant', 'no report, no change of buttons')
        ld = lambda nm, sz, of=0: bv(E.load_raw(s, dm(nm, of), sz, None), 8 * sz)
        chk(s, z3.Implies(valid, ld('button', 4) == db2), 'invariant', 'button remembered for double clicks')
        chk(s, z3.Implies(z3.And(valid, newpress, z3.Not(isdbl)), z3.And(ld('pos', 2) == X, ld('pos', 2, 2) == Y, ld('tick', 4) == tick)), 'invariant', 'place and time remembered for double clicks')
        chk(s, z3.Implies(z3.And(z3.Not(newpress), db2 == db), z3.Implies(db != 0, z3.And(ld('pos', 2) == dx, ld('pos', 2, 2) == dy, ld('tick', 4) == dt))), 'invariant', 'otherwise they are kept')
        E.oblige_all(s, todo)


def unit_lemma(ctx):
    E = ctx.mk(SRCS)
    v, w = z3.BitVec('v', 32), z3.BitVec('w', 32)
    st = State()
    st.assume(z3.And(w >= 1, w <= 32767))
    E.oblige(st, clampw(sat16(v), w) == clampw(v, w), 'lemma', 'a position cut to 16 bits is the same position within every window')
    l, r, x = (z3.BitVec(n, 16) for n in 'lrx')
    s2 = State()
    s2.assume(z3.And(l >= 0, r >= l))
    p = l + z3.Extract(15, 0, clampw(z3.SignExt(16, x), z3.SignExt(16, r) - z3.SignExt(16, l) + 1))
    E.oblige(s2, z3.And(p >= l, p <= r), 'lemma', 'the position sent is inside the window')


UNITS = [('lemma', unit_lemma), ('scanMouseInput', unit_scan), ('matchDsr', unit_dsr)] + \
        [('match1006-%d' % k, mouse_unit('1006', k)) for k in range(8, -1, -1)] + \
        [('match1015-%d' % k, mouse_unit('1015', k)) for k in range(8, 0, -1)] + [('matchMouseOther', mouse_unit('other', 0))]
