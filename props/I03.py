from conin import *

SRCS = [SRC, RE]
LIMIT = 420
JOBS = 8
HARNESS = [('h_input', ['--mode', 'i03'])]
F16 = lambda n: z3.BitVec(n, 16)
scan = z3.Function('MapVirtualKey', z3.BitVecSort(32), z3.BitVecSort(32))
LETTER = dict(UP='A', DOWN='B', RIGHT='C', LEFT='D', CLEAR='E', HOME='H', END='F')
NUMERIC = dict(F1='11', F2='12', F3='13', F4='14', F5='15', F6='17', F7='18', F8='19', F9='20', F10='21', F11='23', F12='24', INSERT='2', DELETE='3', PRIOR='5', NEXT='6')


def mapvk(E):
    def h(E, st, a, ci):
        E.oblige(st, bv(a[1], 32) == 0, 'precondition', 'MapVirtualKey is asked for the scan code')
        return scan(bv(a[0], 32))
    handler(E, r'^MapVirtualKey[AW]$', h, 'Win32 MapVirtualKey: any function of the key')


def console_io(E):
    """the console and its window: what they are given is recorded, in order"""
    def write(E, st, a, ci):
        p = a[1]
        n = bv(a[2], 32)
        if isinstance(p, Ptr):
            o = E.getobj(st, p, 'read')
            E.inb_sym(st, o, p.off, z3.ZeroExt(32, n) * 20, 'read')
            fa = {k: v for k, (w, v) in o.fields.items()}
        else:
            fa = None
        E.store_raw(st, a[3], n, 4)
        g(st, io=st.ghost.get('io', ()) + (('write', hv(a[0]), p, n, fa),))
        return fresh('written', 32)

    def send(E, st, a, ci):
        g(st, io=st.ghost.get('io', ()) + (('message', hv(a[0]), bv(a[1], 32), bv(a[2], 64), bv(a[3], 64)),))
        return fresh('answer', 64)
    handler(E, r'^WriteConsoleInputW$', write, 'Win32 WriteConsoleInputW: takes the records it is given')
    handler(E, r'^SendMessageW$', send, 'Win32 SendMessage: any answer')


def expect(E, s, rp, n0, evs, old, todo, start=None):
    """the vector holds exactly the expected records after the first n0"""
    q = seq_get(E, s, rp)
    f = farrs_of(E, s, q)
    base = n0 if start is None else start
    todo.append((bv(q.len, 64) == add64(base, len(evs)), 'postcondition', 'exactly the expected number of records'))
    for i, (down, vk, ch, state) in enumerate(evs):
        R, _ = rec(E, s, rp, add64(base, i))
        todo += [(R['type'] == KEY_EVENT, 'postcondition', 'records are key records'),
                 (R['down'] == w32(down), 'postcondition', 'press or release at its place'),
                 (R['repeat'] == 1, 'postcondition', 'the repeat count is 1'),
                 (R['vk'] == bv(vk, 16), 'postcondition', 'the key code'),
                 (R['scan'] == z3.Extract(15, 0, scan(z3.ZeroExt(16, bv(vk, 16)))), 'postcondition', 'the scan code is that of the key'),
                 (R['ch'] == bv(ch, 16), 'postcondition', 'the character'),
                 (R['state'] == z3.ZeroExt(16, bv(state, 16)), 'postcondition', 'the control-key state is that of the modifiers held')]
    k = z3.BitVec('k', 64)
    todo.append((z3.Implies(z3.ULT(k, n0), z3.And(*[bv(f[o].read(k), 16) == bv(old[o].read(k), 16) for o in old])), 'postcondition', 'earlier records are kept'))


def utf16(cp):
    """[(condition, units)]"""
    cp = bv(cp, 32)
    v = cp - 0x10000
    return [(z3.ULT(cp, 0x10000), [z3.Extract(15, 0, cp)]),
            (z3.UGE(cp, 0x10000), [z3.Extract(15, 0, z3.LShR(v, 10) + 0xD800), z3.Extract(15, 0, (v & 0x3FF) + 0xDC00)])]


def cp_events(E, s, cp, down, vk, state):
    """-> [(state, events)]"""
    out = []
    for s2, big in E.fork(s, z3.UGE(bv(cp, 32), 0x10000)):
        units = utf16(cp)[1 if big else 0][1]
        out.append((s2, [(down, vk, u, state) for u in units]))
    return out


def unit_record(ctx):
    E = ctx.mk(SRCS)
    mapvk(E)
    st = State()
    rp, n0, old = records(E, st)
    down, vk, ch, state = z3.BitVec('down', 32), F16('vk'), F16('ch'), F16('keyState')
    E.inputs.update(down=down, vk=vk, ch=ch, keyState=state)
    st.assume(z3.Or(down == 0, down == 1))
    f = E.find_fn(r'ConsoleInput::appendInputRecord\(')
    for s, o in E.exec_fn(st, f, [rp, down, vk, ch, state]):
        for s2, d in E.fork(s, down == 1):
            todo = []
            expect(E, s2, rp, n0, [(1 if d else 0, vk, ch, state)], old, todo)
            E.oblige_all(s2, todo)


def unit_cp(ctx):
    E = ctx.mk(SRCS)
    mapvk(E)
    quiet_trace(E)
    st = State()
    rp, n0, old = records(E, st)
    vk, cp, state = F16('vk'), z3.BitVec('codePoint', 32), F16('keyState')
    E.inputs.update(vk=vk, codePoint=cp, keyState=state)
    st.assume(is_scalar(cp))
    f = E.find_fn(r'ConsoleInput::appendCPInputRecords\(')
    for d in (0, 1):
        for s, o in E.exec_fn(st.copy(), f, [rp, d, vk, cp, state]):
            for s2, evs in cp_events(E, s, cp, d, vk, state):
                todo = []
                expect(E, s2, rp, n0, evs, old, todo)
                E.oblige_all(s2, todo)


def hwnd_of(E, st):
    con = new_object(E, st, 'Win32Console', 'console')
    h = z3.BitVec('hwnd', 64)
    con.set(st, 'm_hwnd', h)
    return con, h


def press_unit(escape, part):
    def unit(ctx):
        E = ctx.mk(SRCS)
        E.merge = 'leaf'
        E.lean = True
        mapvk(E)
        console_io(E)
        quiet_trace(E)
        st = State()
        g(st, io=())
        V = new_object(E, st, 'ConsoleInput', 'this')
        con, hw = hwnd_of(E, st)
        conin = z3.BitVec('conin', 64)
        V.set(st, 'm_escapeInputEnabled', 1 if escape else 0)
        V.set(st, 'm_conin', conin)
        E.store_raw(st, V.p('m_console'), con.ptr, 8)
        rp, n0, old = records(E, st)
        vk, dn, up, ws, vcp, vs = F16('vk'), z3.BitVec('cpDown', 32), z3.BitVec('cpUp', 32), F16('winState'), z3.BitVec('vtCodePoint', 32), F16('vtState')
        E.inputs.update(vk=vk, cpDown=dn, cpUp=up, winState=ws, vtCodePoint=vcp, vtState=vs)
        st.assume(z3.And(is_scalar(dn), is_scalar(up), is_scalar(vcp)))
        st.assume(z3.And((ws & LCTRL != 0) == bool(part & 1), (ws & SHIFT != 0) == bool(part & 2)))
        # at most one record is appended per step: the count never overflows
        vtn = z3.BitVec('vtRecords', 64)
        st.assume(z3.ULE(vtn, 16))
        vtf = {o: FArr.base(16, 'vt.%d' % o) for o in old}

        def reenc(E, s, a, ci):
            E.oblige(s, z3.And(bv(a[1], 16) == vk, bv(a[2], 32) == vcp, bv(a[3], 16) == vs), 'precondition', 'the key is re-encoded as the terminal sent it')
            q = seq_get(E, s, a[0])
            f = farrs_of(E, s, q)
            with_len(E, s, a[0], q, add64(q.len, vtn), {o: f[o].copy(q.len, vtn, vtf[o], 0) for o in f})
            g(s, vt=s.ghost.get('vt', ()) + (q.len,))
            return None
        contract(E, r'^reencodeEscapedKeyPress\(', reenc, 'reencodeEscapedKeyPress (verified by its own units)')
        f = E.find_fn(r'ConsoleInput::appendKeyPress\(')
        arrows = z3.Or(*[vk == VK[k] for k in ('UP', 'DOWN', 'LEFT', 'RIGHT', 'HOME', 'END')])
        plain = ws & (SHIFT | LCTRL | LALT | RALT) == 0
        for s, o in E.exec_fn(st, f, [V.ptr, rp, vk, dn, up, ws, vcp, vs]):
            todo = []
            io = s.ghost['io']
            if escape:
                r = E.fork(s, z3.And(arrows, plain))
            else:
                r = [(s, False)]
            for s1, msg in r:
                if msg:
                    key_message(E, s1, io, n0, old, conin, hw, vk, todo)
                    q = seq_get(E, s1, rp)
                    todo.append((bv(q.len, 64) == 0, 'postcondition', 'the records written are not kept'))
                    E.oblige_all(s1, todo)
                    continue
                paths = [(s1, [], 0)]
                mods = [(LCTRL, VK['CONTROL'], 0), (LALT, VK['MENU'], 0), (RALT, VK['MENU'], ENHANCED), (SHIFT, VK['SHIFT'], 0)]
                for bit, mvk, extra in mods:
                    nx = []
                    for s2, evs, held in paths:
                        for s3, on in E.fork(s2, ws & bit != 0):
                            nx.append((s3, evs + [(1, mvk, 0, held | bit | extra)], held | bit) if on else (s3, evs, held))
                    paths = nx
                for s2, evs, held in paths:
                    ks = bv(held, 16) | (ws & ENHANCED)
                    rel = []
                    h = held
                    for bit, mvk, extra in reversed(mods):
                        if held & bit:
                            h &= ~bit
                            rel.append((0, mvk, 0, h | extra))
                    for s3, down in ([(s2, None)] if escape else cp_events(E, s2, dn, 1, vk, ks)):
                        for s4, upev in cp_events(E, s3, up, 0, vk, ks):
                            todo = []
                            if escape:
                                at = add64(n0, len(evs))
                                vt = s4.ghost.get('vt', ())
                                todo.append((len(vt) == 1, 'postcondition', 'the key is re-encoded once'))
                                if len(vt) == 1:
                                    todo.append((bv(vt[0], 64) == at, 'postcondition', 'the key is re-encoded between the modifiers'))
                                expect_pair(E, s4, rp, n0, evs, vtn, upev + rel, old, todo)
                            else:
                                expect(E, s4, rp, n0, evs + down + upev + rel, old, todo)
                            todo.append((len(io) == 0, 'postcondition', 'nothing is sent out of order'))
                            E.oblige_all(s4, todo)
    return unit


def expect_pair(E, s, rp, n0, first, gap, second, old, todo):
    q = seq_get(E, s, rp)
    start = add64(add64(n0, len(first)), gap)
    todo.append((bv(q.len, 64) == add64(start, len(second)), 'postcondition', 'exactly the expected number of records'))
    t2 = []
    # check both parts; the length clauses inside are replaced by the one above
    expect(E, s, rp, n0, first, old, t2)
    t3 = []
    expect(E, s, rp, n0, second, old, t3, start=start)
    todo += t2[1:] + t3[1:]


def key_message(E, s, io, n0, old, conin, hw, vk, todo):
    """pending records are written first, then the key goes to the window"""
    for s2, some in E.fork(s, n0 != 0):
        ev = list(io)
        if some:
            ok = len(ev) == 3 and ev[0][0] == 'write'
            todo.append((ok, 'postcondition', 'pending records are written before the key message'))
            if ok:
                _, h, p, n, fa = ev[0]
                k = z3.BitVec('k', 64)
                todo.append((z3.And(h == conin, n == z3.Extract(31, 0, n0), z3.ULT(n0, 1 << 32) if False else z3.BoolVal(True)), 'postcondition', 'all of them, to the console input'))
                todo.append((bv(p.off, 64) == 0, 'postcondition', 'from the first one on'))
                todo.append((z3.Implies(z3.ULT(k, n0), z3.And(*[bv(fa[o].read(k), 16) == bv(old[o].read(k), 16) for o in old])), 'postcondition', 'unchanged'))
                ev = ev[1:]
        ok = len(ev) == 2 and all(x[0] == 'message' for x in ev)
        todo.append((ok, 'postcondition', 'the key goes to the console window as press and release'))
        if ok:
            sc0 = scan(z3.ZeroExt(16, vk))
            sc = z3.If(z3.UGT(sc0, 255), w32(0), sc0)
            for x, m, extra in ((ev[0], 0x100, 1), (ev[1], 0x101, 0xC0000001)):
                todo.append((z3.And(x[1] == hw, x[2] == m, x[3] == z3.ZeroExt(48, vk)), 'postcondition', 'message, window and key'))
                todo.append((z3.Extract(31, 0, x[4]) == ((sc << 16) | extra), 'postcondition', 'scan code and transition bits'))
        if some:
            E.oblige_all(s2, todo)
            del todo[:]


def reenc_unit(lo, hi):
    """re-encoding of a key for a program that reads escape sequences"""
    def unit(ctx):
        E = ctx.mk([RE, SRC])
        E.merge = 'leaf'
        E.lean = True
        mapvk(E)
        quiet_trace(E)
        st = State()
        rp, n0, old = records(E, st)
        vk, cp, ks = F16('vk'), z3.BitVec('codePoint', 32), F16('keyState')
        E.inputs.update(vk=vk, codePoint=cp, keyState=ks)
        st.assume(z3.And(is_scalar(cp), z3.UGE(vk, lo), z3.ULE(vk, hi)))
        f = E.find_fn(r'reencodeEscapedKeyPress\(')
        special = {VK[k]: ('L', v) for k, v in LETTER.items()}
        special.update({VK[k]: ('N', v) for k, v in NUMERIC.items()})
        C = lambda t: [(1, 0, ord(c), 0) for c in t]
        for s, o in E.exec_fn(st, f, [rp, vk, cp, ks]):
            cases = []
            rest = s
            for code in sorted(c for c in list(special) + [8, 9] if lo <= c <= hi):
                if rest is None:
                    break
                nxt = None
                for s1, y in E.fork(rest, vk == code):
                    if y:
                        cases.append((s1, code))
                    else:
                        nxt = s1
                rest = nxt
            if rest is not None:
                cases.append((rest, None))
            for s1, code in cases:
                for s2, sh in E.fork(s1, ks & SHIFT != 0):
                    for s3, al in E.fork(s2, ks & LALT != 0):
                        for s4, ct in E.fork(s3, ks & LCTRL != 0) if code in special else [(s3, False)]:
                            m = (1 if sh else 0) + (2 if al else 0) + (4 if ct else 0)
                            mod = ';%d' % (m + 1) if m else ''
                            if code in special:
                                k, v = special[code]
                                res = [(s4, C('\x1b[' + ('1' + mod if m else '') + v if k == 'L' else '\x1b[' + v + mod + '~'))]
                            elif code == 8:
                                res = [(s4, C(('\x1b' if al else '') + '\x7f'))]
                            elif code == 9 and sh:
                                res = [(s4, C('\x1b[Z'))]
                            else:
                                res = []
                                for s5, z in E.fork(s4, cp == 0):
                                    if z:
                                        res.append((s5, []))
                                    else:
                                        for s6, evs in cp_events(E, s5, cp, 1, 0, 0):
                                            res.append((s6, C('\x1b' if al else '') + evs))
                            for s5, evs in res:
                                todo = []
                                expect(E, s5, rp, n0, evs, old, todo)
                                E.oblige_all(s5, todo)
    return unit


UNITS = [('record', unit_record), ('codepoint', unit_cp)] + \
        [('press-%d' % i, press_unit(False, i)) for i in range(4)] + [('pressEscapeInput-%d' % i, press_unit(True, i)) for i in range(4)] + \
        [('reencode-%x' % lo, reenc_unit(lo, hi)) for lo, hi in ((0, 0x24), (0x25, 0x6f), (0x70, 0x76), (0x77, 0xffff))]
