"""scanInput, doWrite, writeInput, flushIncompleteEscapeCode and appendUtf8Char under contract
(shared by I01 and I04)."""
from conin import *
from conin import _std

SRCS = [SRC]


class Scan:
    """what the parts of scanInput answer for one input (their own contracts are I02, I03, I05)"""

    def __init__(self, tag, I, eof, mode):
        B = lambda n, w: z3.BitVec(n + tag, w)
        self.I, self.eof, self.mode = I, eof, mode
        self.dsr, self.mouse, self.len, self.inc = B('dsr', 32), B('mouse', 32), B('matchLen', 32), z3.Bool('incomplete' + tag)
        self.key = (B('keyVk', 16), B('keyChar', 32), B('keyState', 16))
        n = I.n
        self.ranges = z3.And(self.dsr >= -1, self.dsr <= n, self.mouse >= -1, self.mouse <= n, self.len >= 0, self.len <= n)

    def cases(self):
        """[(condition, case, result)] in the documented order of recognition"""
        I, n, eof = self.I, self.I.n, self.eof
        b0, b1 = I.b(0), I.b(1)
        esc = b0 == 0x1b
        l0, l1 = u8len(b0), u8len(b1)
        out, before = [], z3.BoolVal(False)

        def case(c, name, r):
            nonlocal before
            out.append((z3.And(c, z3.Not(before)), name, bv(r, 32)))
            before = z3.Or(before, c)
        case(z3.And(b0 == 3, self.mode & 1 != 0), 'ctrlc', 1)
        case(z3.And(esc, self.dsr > 0), 'dsr', self.dsr)
        case(z3.And(esc, self.dsr == -1, z3.Not(eof)), 'wait', -1)
        case(z3.And(esc, self.mouse > 0), 'mouse', self.mouse)
        case(z3.And(esc, self.mouse == -1, z3.Not(eof)), 'wait', -1)
        case(z3.And(self.inc, z3.Not(eof)), 'wait', -1)
        case(self.len > 0, 'key', self.len)
        alt = z3.And(esc, n >= 2, b1 != 0x1b, l1 > 0)
        case(z3.And(alt, l1 + 1 > n), 'wait', -1)
        case(alt, 'alt', l1 + 1)
        case(l0 == 0, 'drop', 1)
        case(l0 > n, 'wait', -1)
        case(z3.BoolVal(True), 'text', l0)
        return out


def u8len(b):
    """bytes of the UTF-8 form announced by its first byte, 0: not a first byte"""
    return z3.If(z3.ULT(b, 0x80), w32(1), z3.If(z3.ULT(b, 0xC0), w32(0), z3.If(z3.ULT(b, 0xE0), w32(2), z3.If(z3.ULT(b, 0xF0), w32(3), z3.If(z3.ULT(b, 0xF8), w32(4), w32(0))))))


def unit_scan(ctx):
    E = ctx.mk(SRCS)
    E.merge = 'leaf'
    quiet_trace(E)
    st = State()
    g(st, ev=())
    I = Input(E, st)
    eof = z3.Bool('isEof')
    mode, modeok = z3.BitVec('consoleMode', 32), z3.Bool('modeKnown')
    S = Scan('', I, eof, z3.If(modeok, mode, w32(0)))
    E.inputs.update(isEof=bv(eof, 8), consoleMode=mode, dsr=S.dsr, mouse=S.mouse, matchLen=S.len)
    st.assume(S.ranges)
    V = new_object(E, st, 'ConsoleInput', 'this')
    conin = z3.BitVec('conin', 64)
    V.set(st, 'm_conin', conin)
    dsr0 = z3.BitVec('dsrSent', 8)
    V.set(st, 'm_dsrSent', dsr0)
    rp, n0, old = records(E, st)
    ev = lambda s, *x: g(s, ev=s.ghost['ev'] + (x,))

    def whole(E, s, p, n):
        E.oblige(s, z3.And(bv(p.off, 64) == 0, bv(n, 32) == I.n) if p.oid == I.ptr.oid else False, 'precondition', 'the whole remaining input is offered')

    def getmode(E, s, a, ci):
        E.oblige(s, hv(a[0]) == conin, 'precondition', 'the mode of the console input is asked')
        out = []
        for s1, ok in E.fork(s, modeok):
            if ok:
                E.store_raw(s1, a[1], mode, 4)
            out.append((s1, Ret(1 if ok else 0)))
        return Outs(out)
    handler(E, r'^GetConsoleMode$', getmode, 'Win32 GetConsoleMode: any mode or failure')

    def flushrec(E, s, a, ci):
        E.oblige(s, a[1].oid == rp.oid, 'precondition', 'the pending records are written')
        ev(s, 'flush', bv(seq_get(E, s, rp).len, 64))
        with_len(E, s, rp, seq_get(E, s, rp), 0, farrs_of(E, s, seq_get(E, s, rp)))
        return None
    contract(E, r'ConsoleInput::flushInputRecords\(', flushrec, 'ConsoleInput::flushInputRecords (verified by its own unit)')
    handler(E, r'^GenerateConsoleCtrlEvent$', lambda E, s, a, ci: (ev(s, 'ctrlc', bv(a[0], 32), bv(a[1], 32)), fresh('sent', 32))[1], 'Win32 GenerateConsoleCtrlEvent')

    def mdsr(E, s, a, ci):
        whole(E, s, a[0], a[1])
        return S.dsr
    contract(E, r'matchDsr\(', mdsr, 'matchDsr (verified by I02)')

    def smouse(E, s, a, ci):
        whole(E, s, a[2], a[3])
        ev(s, 'mouse')
        return S.mouse
    contract(E, r'ConsoleInput::scanMouseInput\(', smouse, 'ConsoleInput::scanMouseInput (verified by I02)')
    im = V.lay['m_inputMap'][0]

    def lookup(E, s, a, ci):
        whole(E, s, a[1], a[2])
        E.oblige(s, bv(a[0].off, 64) == im if a[0].oid == V.ptr.oid else False, 'precondition', 'the key table of this object is used')
        for v, (o, n) in zip(S.key, ((0, 2), (4, 4), (8, 2))):
            E.store_raw(s, Ptr(a[3].oid, add64(a[3].off, o)), v, n)
        E.store_raw(s, a[4], bv(S.inc, 8), 1)
        return S.len
    contract(E, r'InputMap::lookupKey\(', lookup, 'InputMap::lookupKey (verified by I05)')
    contract(E, r'ConsoleInput::appendKeyPress\(', lambda E, s, a, ci: ev(s, 'key', a[1].oid, bv(a[2], 16), bv(a[3], 32), bv(a[4], 32), bv(a[5], 16), bv(a[6], 32), bv(a[7], 16)),
             'ConsoleInput::appendKeyPress (verified by I03)')
    contract(E, r'ConsoleInput::appendUtf8Char\(', lambda E, s, a, ci: ev(s, 'char', a[1].oid, a[2], bv(a[3], 32), boolv(a[4])),
             'ConsoleInput::appendUtf8Char (verified by its own unit)')
    f = E.find_fn(r'ConsoleInput::scanInput\(')
    for s, o in E.exec_fn(st, f, [V.ptr, rp, I.ptr, I.n, eof]):
        rest = s
        for c, name, r in S.cases():
            if rest is None:
                break
            nxt = None
            for s1, y in E.fork(rest, c):
                if y:
                    check_case(E, s1, o, name, r, S, I, V, rp, dsr0, n0)
                else:
                    nxt = s1
            rest = nxt


def check_case(E, s, o, name, r, S, I, V, rp, dsr0, n0):
    ev = [x for x in s.ghost['ev'] if x[0] != 'mouse']
    P = 'postcondition'
    todo = [(bv(o.v, 32) == r, P, 'the bytes taken are exactly those of what was recognised (%s)' % name),
            (z3.Or(bv(o.v, 32) == -1, z3.And(bv(o.v, 32) >= 1, bv(o.v, 32) <= I.n)), P, 'at least one byte is taken, never more than there are')]
    kinds = [x[0] for x in ev]
    want = {'ctrlc': ['flush', 'ctrlc'], 'key': ['key'], 'alt': ['char'], 'text': ['char']}.get(name, [])
    ok = kinds == want
    todo.append((ok, P, 'what was recognised is acted on once (%s)' % name))
    mouse = [x for x in s.ghost['ev'] if x[0] == 'mouse']
    todo.append((len(mouse) <= 1, P, 'a mouse report is taken at most once'))
    if name in ('ctrlc', 'dsr'):
        todo.append((len(mouse) == 0, P, 'no other reading of the same bytes'))
    if ok and name == 'ctrlc':
        todo += [(ev[0][1] == n0, P, 'keys before Ctrl-C are sent before it'), (z3.And(ev[1][1] == 0, ev[1][2] == 0), P, 'a Ctrl-C event for the console')]
    if ok and name == 'key':
        vk, ch, ks = S.key
        _, oid, a, dn, up, ws, vcp, vks = ev[0]
        ctrlalt = z3.And(ks & LCTRL != 0, ks & LALT != 0)
        todo += [(oid == rp.oid, P, 'the key goes to the records'), (a == vk, P, 'the key code found'),
                 (dn == z3.If(ctrlalt, w32(0), ch), P, 'the character of the press: none with Ctrl and Alt'),
                 (up == z3.If(ks & LALT != 0, w32(0), ch), P, 'the character of the release: none with Alt'),
                 (ws == ks, P, 'the modifiers found'), (z3.And(vcp == ch, vks == ks), P, 'the same key for re-encoding')]
    if ok and name in ('alt', 'text'):
        _, oid, p, n, alt = ev[0]
        at = 1 if name == 'alt' else 0
        todo += [(oid == rp.oid, P, 'the character goes to the records'), (bv(p.off, 64) == at if p.oid == I.ptr.oid else False, P, 'the character starts where it should'),
                 (n == r - at, P, 'the character has the length its first byte announces'), (alt == (name == 'alt'), P, 'Alt exactly after ESC'),
                 (n + at <= I.n, P, 'the whole character is there')]
    d = bv(V.get(s, 'm_dsrSent'), 8)
    todo.append((d == (0 if name == 'dsr' else dsr0), P, 'a position query is answered exactly by a position report'))
    E.oblige_all(s, todo)


def unit_stable(ctx):
    """a result other than 'wait' does not change when more input follows"""
    E = ctx.mk(SRCS)
    st = State()
    I = Input(E, st)
    J = Input.__new__(Input)
    J.a, J.ptr = I.a, I.ptr
    J.n = z3.BitVec('longerSize', 32)
    mode = z3.BitVec('consoleMode', 32)
    eof = z3.BoolVal(False)
    A, B = Scan('', I, eof, mode), Scan("'", J, eof, mode)
    st.assume(z3.And(J.n >= I.n, J.n <= 1 << 24, A.ranges, B.ranges))
    # the parts read from left to right: what they decided without asking for more stands (I02, I05)
    st.assume(z3.Implies(A.dsr != -1, B.dsr == A.dsr))
    st.assume(z3.Implies(A.mouse != -1, B.mouse == A.mouse))
    st.assume(z3.Implies(z3.Not(A.inc), z3.And(B.len == A.len, z3.Not(B.inc), *[x == y for x, y in zip(A.key, B.key)])))
    for c, name, r in A.cases():
        if name == 'wait':
            continue
        for s, y in E.fork(st.copy(), c):
            if not y:
                continue
            # the only case that looks at the size: ESC alone is held back by the table
            if name == 'text':
                s.assume(z3.Implies(z3.And(I.n == 1, I.b(0) == 0x1b), A.inc))
            cc = [(c2, n2, r2) for c2, n2, r2 in B.cases()]
            same = z3.Or(*[z3.And(c2, r2 == r) for c2, n2, r2 in cc if n2 == name])
            E.oblige(s, same, 'lemma', 'the same recognition when more input follows (%s)' % name)


def queue(E, st, V, name='queue'):
    a = FArr.base(8, name)
    n = z3.BitVec(name + 'Size', 64)
    st.assume(z3.ULE(n, 1 << 24))
    f = a.set(n, 0)
    V.set(st, 'm_byteQueue', std_new(E, st, n, a))
    return a, n


def std_new(E, st, n, a):
    return _std.new_seq(E, st, 'char', n, {0: a.set(n, 0)}, True, 'bytes')


def unit_dowrite(ctx):
    E = ctx.mk(SRCS)
    quiet_trace(E)
    st = State()
    V = new_object(E, st, 'ConsoleInput', 'this')
    a, n = queue(E, st, V)
    eof = z3.Bool('isEof')
    E.inputs.update(queueSize=n, isEof=bv(eof, 8))
    g(st, pos=w64(0), stuck=False, flushed=0)

    def scan(E, s, args, ci):
        p, sz = args[2], bv(args[3], 32)
        q = V.seq(s, 'm_byteQueue')
        pos = bv(s.ghost['pos'], 64)
        E.oblige(s, s.ghost['stuck'] is False, 'precondition', 'nothing is scanned after input is held back')
        E.oblige(s, bv(p.off, 64) == pos if p.oid == q.oid else False, 'precondition', 'scanning goes on exactly after the bytes already taken')
        E.oblige(s, z3.SignExt(32, sz) == n - pos, 'precondition', 'all remaining bytes are offered')
        E.oblige(s, sz >= 1, 'precondition', 'at least one byte is offered')
        E.oblige(s, boolv(args[4]) == eof, 'precondition', 'the end-of-input mark is passed on')
        r = fresh('taken', 32)
        s.assume(z3.Or(r == -1, z3.And(r >= 1, r <= sz)))
        # records may be appended
        rq = seq_get(E, s, args[1])
        k = fresh('records', 64)
        s.assume(z3.ULE(k, 1 << 40))
        with_len(E, s, args[1], rq, k, farrs_of(E, s, rq))
        out = []
        for s1, w in E.fork(s, r == -1):
            if w:
                g(s1, stuck=True)
            else:
                g(s1, pos=pos + z3.SignExt(32, r))
            out.append((s1, Ret(r)))
        return Outs(out)
    contract(E, r'ConsoleInput::scanInput\(', scan, 'ConsoleInput::scanInput (verified by its own unit)')

    def flushrec(E, s, args, ci):
        g(s, flushed=s.ghost['flushed'] + 1)
        return None
    contract(E, r'ConsoleInput::flushInputRecords\(', flushrec, 'ConsoleInput::flushInputRecords (verified by its own unit)')
    E.loops.append(LoopSpec('scanning', lambda c: [('the position is where the bytes taken end', bv(c['idx'], 64) == bv(c.st.ghost['pos'], 64)),
                                                   ('it is within the queue', z3.ULE(bv(c.st.ghost['pos'], 64), n))],
                            fn=r'ConsoleInput::doWrite\(', vars={'idx': ('i', 64)}, decreases=lambda c: n - bv(c['idx'], 64)))
    f = E.find_fn(r'ConsoleInput::doWrite\(')
    k = z3.BitVec('k', 64)
    for s, o in E.exec_fn(st, f, [V.ptr, eof]):
        pos = bv(s.ghost['pos'], 64)
        q = V.seq(s, 'm_byteQueue')
        fa = farrs_of(E, s, q)[0]
        todo = [(z3.Or(z3.BoolVal(s.ghost['stuck'] is True), pos == n), 'postcondition', 'all bytes are taken unless input is held back'),
                (bv(q.len, 64) == n - pos, 'postcondition', 'exactly the bytes taken leave the queue'),
                (z3.Implies(z3.ULT(k, n - pos), bv(fa.read(k), 8) == bv(a.read(pos + k), 8)), 'postcondition', 'the rest is kept in order'),
                (s.ghost['flushed'] == 1, 'postcondition', 'the records are written once, after scanning')]
        E.oblige_all(s, todo)


def unit_flushrecords(ctx):
    E = ctx.mk(SRCS)
    quiet_trace(E)
    st = State()
    g(st, io=())
    V = new_object(E, st, 'ConsoleInput', 'this')
    conin = z3.BitVec('conin', 64)
    V.set(st, 'm_conin', conin)
    rp, n0, old = records(E, st)
    st.assume(z3.ULT(n0, 1 << 32))
    data = seq_get(E, st, rp).oid

    def write(E, s, a, ci):
        q = seq_get(E, s, rp)
        E.oblige(s, bv(a[1].off, 64) == 0 if a[1].oid == q.oid else False, 'precondition', 'the records are written from the first one')
        E.oblige(s, z3.And(hv(a[0]) == conin, z3.ZeroExt(32, bv(a[2], 32)) == bv(q.len, 64)), 'precondition', 'all of them go to the console input')
        fa = farrs_of(E, s, q)
        k = z3.BitVec('k', 64)
        E.oblige(s, z3.Implies(z3.ULT(k, n0), z3.And(*[bv(fa[o].read(k), 16) == bv(old[o].read(k), 16) for o in old])), 'precondition', 'they are unchanged')
        E.store_raw(s, a[3], fresh('written', 32), 4)
        g(s, io=s.ghost['io'] + (bv(q.len, 64),))
        return fresh('ok', 32)
    handler(E, r'^WriteConsoleInputW$', write, 'Win32 WriteConsoleInputW: takes the records it is given')
    for s, o in E.exec_fn(st, E.find_fn(r'ConsoleInput::flushInputRecords\('), [V.ptr, rp]):
        for s1, some in E.fork(s, n0 != 0):
            E.oblige_all(s1, [(len(s1.ghost['io']) == (1 if some else 0), 'postcondition', 'pending records are written exactly once'),
                              (bv(seq_get(E, s1, rp).len, 64) == 0, 'postcondition', 'no record stays behind')])


def write_setup(E, st):
    """ConsoleInput with a queue, doWrite by contract, a DSR sender that records"""
    quiet_trace(E)
    g(st, ev=())
    V = new_object(E, st, 'ConsoleInput', 'this')
    a, n = queue(E, st, V)
    sent, last = z3.Bool('dsrSent'), z3.BitVec('lastWriteTick', 32)
    V.set(st, 'm_dsrSent', bv(sent, 8))
    V.set(st, 'm_lastWriteTick', last)
    vt = E.new_cells(st, 64, 'vtable')
    E.store_raw(st, vt, FnPtr('virtual DsrSender::sendDsr', E.mods[0]), 8)
    obj = E.new_cells(st, 8, 'dsrSender')
    E.store_raw(st, obj, vt, 8)
    E.store_raw(st, V.p('m_dsrSender'), obj, 8)
    now = z3.BitVec('now', 32)
    handler(E, r'^GetTickCount$', lambda E, s, x, ci: now, 'Win32 GetTickCount')
    handler(E, r'^virtual DsrSender::sendDsr$', lambda E, s, x, ci: g(s, ev=s.ghost['ev'] + (('dsr',),)), 'DsrSender::sendDsr: asks the terminal for the cursor position')
    left, answered = z3.BitVec('heldBack', 64), z3.Bool('answered')

    def dowrite(E, s, x, ci):
        q = V.seq(s, 'm_byteQueue')
        g(s, ev=s.ghost['ev'] + (('write', boolv(x[1]), bv(q.len, 64), farrs_of(E, s, q)[0]),))
        s.assume(z3.ULE(left, bv(q.len, 64)))
        f = farrs_of(E, s, q)[0]
        ln = bv(q.len, 64)
        V.set(s, 'm_byteQueue', std_new(E, s, left, FArr.fun(8, lambda i: f.read(add64(i, ln - left)))))
        V.set(s, 'm_dsrSent', z3.If(answered, z3.BitVecVal(0, 8), bv(V.get(s, 'm_dsrSent'), 8)))
        return None
    contract(E, r'ConsoleInput::doWrite\(', dowrite, 'ConsoleInput::doWrite (verified by its own unit): takes bytes from the front, a position report answers the query')
    E.inputs.update(queueSize=n, heldBack=left, lastWriteTick=last, now=now)
    return V, a, n, sent, last, now, left, answered


def unit_writeinput(ctx):
    E = ctx.mk(SRCS)
    st = State()
    V, a, n, sent, last, now, left, answered = write_setup(E, st)
    inp = E.new_cells(st, 32, 'input')
    b, m = FArr.base(8, 'input'), z3.BitVec('inputSize', 64)
    E.inputs['inputSize'] = m
    st.assume(z3.ULE(m, 1 << 24))
    seq_put(E, st, inp, std_new(E, st, m, b))
    k = z3.BitVec('k', 64)
    P = 'postcondition'
    for s, o in E.exec_fn(st, E.find_fn(r'ConsoleInput::writeInput\('), [V.ptr, inp]):
        for s1, none in E.fork(s, m == 0):
            ev = s1.ghost['ev']
            if none:
                q = V.seq(s1, 'm_byteQueue')
                E.oblige_all(s1, [(len(ev) == 0, P, 'an empty write does nothing'), (bv(q.len, 64) == n, P, 'an empty write keeps the queue')])
                continue
            ok = len(ev) >= 1 and ev[0][0] == 'write'
            todo = [(ok, P, 'the input is scanned')]
            if ok:
                _, eof, ln, f = ev[0]
                todo += [(eof == False, P, 'incomplete sequences are held back'), (ln == n + m, P, 'the new bytes are queued'),
                         (z3.Implies(z3.ULT(k, n), bv(f.read(k), 8) == bv(a.read(k), 8)), P, 'after the bytes held back before'),
                         (z3.Implies(z3.ULT(k, m), bv(f.read(n + k), 8) == bv(b.read(k), 8)), P, 'in order and unchanged')]
            after = z3.And(sent, z3.Not(answered))
            for s2, ask in E.fork(s1, z3.And(left != 0, z3.Not(after))):
                t2 = list(todo)
                t2.append(([x[0] for x in ev] == (['write', 'dsr'] if ask else ['write']), P, 'the terminal is asked for the cursor position exactly when input is held back and no query is out'))
                t2.append((b8(V.get(s2, 'm_dsrSent')) == (True if ask else after), 'invariant', 'the outstanding query is remembered'))
                t2.append((bv(V.get(s2, 'm_lastWriteTick'), 32) == now, P, 'the time of the last input is kept'))
                q = V.seq(s2, 'm_byteQueue')
                t2.append((bv(q.len, 64) == left, P, 'input held back stays in the queue'))
                E.oblige_all(s2, t2)


def unit_flush(ctx):
    E = ctx.mk(SRCS)
    st = State()
    V, a, n, sent, last, now, left, answered = write_setup(E, st)
    P = 'postcondition'
    for s, o in E.exec_fn(st, E.find_fn(r'ConsoleInput::flushIncompleteEscapeCode\('), [V.ptr]):
        # the documented time limit is one second
        for s1, due in E.fork(s, z3.And(n != 0, z3.UGT(now - last, 1000))):
            ev = s1.ghost['ev']
            q = V.seq(s1, 'm_byteQueue')
            if not due:
                E.oblige_all(s1, [(len(ev) == 0, P, 'input is held back within the time limit'), (bv(q.len, 64) == n, P, 'it stays in the queue')])
            else:
                ok = len(ev) == 1 and ev[0][0] == 'write'
                todo = [(ok, P, 'after the time limit the input is taken as it stands'), (bv(q.len, 64) == 0, P, 'nothing stays held back')]
                if ok:
                    todo += [(ev[0][1] == True, P, 'as complete input'), (ev[0][2] == n, P, 'all of it')]
                E.oblige_all(s1, todo)


def unit_utf8char(ctx):
    E = ctx.mk(SRCS)
    quiet_trace(E)
    st = State()
    g(st, ev=())
    I = Input(E, st)
    b0 = I.b(0)
    st.assume(z3.And(u8len(b0) == I.n))
    alt = z3.Bool('afterEsc')
    E.inputs['afterEsc'] = bv(alt, 8)
    vks = z3.Function('VkKeyScan', z3.BitVecSort(16), z3.BitVecSort(16))
    asked = []

    def scan(E, s, a, ci):
        asked.append(1)
        return vks(bv(a[0], 16))
    handler(E, r'^VkKeyScan[W]$', scan, 'Win32 VkKeyScanW: any answer')
    V = new_object(E, st, 'ConsoleInput', 'this')
    rp, n0, old = records(E, st)
    contract(E, r'ConsoleInput::appendKeyPress\(', lambda E, s, a, ci: g(s, ev=s.ghost['ev'] + ((a[1].oid, bv(a[2], 16), bv(a[3], 32), bv(a[4], 32), bv(a[5], 16), bv(a[6], 32), bv(a[7], 16)),)),
             'ConsoleInput::appendKeyPress (verified by I03)')
    f = E.find_fn(r'ConsoleInput::appendUtf8Char\(')
    ce = z3.Concat
    c6 = lambda i: z3.Extract(5, 0, I.b(i))
    z = lambda v: z3.ZeroExt(32 - v.size(), v)
    cont = lambda i: I.b(i) & 0xC0 == 0x80
    P = 'postcondition'
    for L in range(1, 5):
        for s0, is_ in E.fork(st.copy(), I.n == L):
            if not is_:
                continue
            cp = z(b0) if L == 1 else z(ce(z3.Extract(6 - L, 0, b0), *[c6(i) for i in range(1, L)]))
            lo = {1: 0, 2: 0x80, 3: 0x800, 4: 0x10000}[L]
            valid = z3.And(*([cont(i) for i in range(1, L)] + [z3.UGE(cp, lo), is_scalar(cp)]))
            for s, o in E.exec_fn(s0, f, [V.ptr, rp, I.ptr, I.n, alt]):
                for s1, good in E.fork(s, valid):
                    ev = s1.ghost['ev']
                    todo = [(len(ev) == (1 if good else 0), P, 'one key press for a well-formed character, none for malformed bytes'),
                            (bv(seq_get(E, s1, rp).len, 64) == n0, P, 'nothing else is sent')]
                    if good and len(ev) == 1:
                        oid, vk, dn, up, ws, vcp, vst = ev[0]
                        sc = vks(z3.Extract(15, 0, cp))
                        key = z3.And(z3.ULE(cp, 0xFFFF), sc != 0xFFFF)
                        bit = lambda m, v: z3.If(sc & m != 0, z3.BitVecVal(v, 16), z3.BitVecVal(0, 16))
                        mods = z3.If(key, bit(0x100, SHIFT) | bit(0x200, LCTRL) | bit(0x400, RALT), z3.BitVecVal(0, 16))
                        ctl = z3.And(key, sc & 0x200 != 0)
                        todo += [(oid == rp.oid, P, 'the character goes to the records'),
                                 (vk == z3.If(key, sc & 0xff, z3.BitVecVal(0, 16)), P, 'the key that types the character, if any'),
                                 (dn == z3.If(z3.And(alt, ctl), w32(0), cp), P, 'the press carries the character'),
                                 (up == z3.If(alt, w32(0), cp), P, 'the release carries the character, none with Alt'),
                                 (ws == (mods | z3.If(alt, z3.BitVecVal(LALT, 16), z3.BitVecVal(0, 16))), P, 'the modifiers of the key, and Alt exactly after ESC'),
                                 (z3.And(vcp == cp, vst == z3.If(alt, z3.BitVecVal(LALT, 16), z3.BitVecVal(0, 16))), P, 'the same character for re-encoding')]
                    E.oblige_all(s1, todo)
