"""Agent.cc under contract (properties B02, G01, L04, X01, C01)."""
from rpc import *

AG, BUF = 'src/agent/Agent.cc', 'src/shared/Buffer.cc'
HPROC, HTHREAD = 0x11110, 0x11114
BOOLS = ('m_useConerr', 'm_plainMode', 'm_autoShutdown', 'm_exitAfterShutdown', 'm_closingOutputPipes')
INVALID = 2 ** 64 - 1


def agent(ctx, extra=()):
    E = ctx.mk([AG] + list(extra))
    st = State()
    A = new_object(E, st, 'Agent', 'agent')
    g(st, rd=(), sent=(), bad=False, nsent=0)
    for n in BOOLS:
        st.assume(z3.ULE(bv(A.get(st, n), 8), 1))
    E.pipes = {}
    for n in ('m_controlPipe', 'm_coninPipe', 'm_conoutPipe'):
        P = new_object(E, st, 'NamedPipe', n)
        E.pipes[n] = P
        A.set(st, n, P.ptr)
    handler(E, r'^trace\(', lambda E, s, a, ci: None, False)
    handler(E, r'^hasDebugFlag\(', lambda E, s, a, ci: fresh('dbg', 1), 'hasDebugFlag: any')
    return E, st, A


def c_write_packet(E, s, a, ci):
    m = items(s, a[1])
    g(s, sent=s.ghost['sent'] + (m,), nsent=s.ghost['nsent'] + 1)
    return None


def unit_write_packet(ctx):
    """Agent::writePacket: one length-prefixed packet on the control pipe"""
    E, st, A = agent(ctx, [BUF])
    n = z3.BitVec('n', 64)
    E.inputs['n'] = n
    st.assume(z3.And(z3.UGE(n, 8), z3.ULE(n, 1 << 32)))
    W = new_object(E, st, 'WriteBuffer', 'packet')
    body = FArr.base(8, 'body')
    seq_put(E, st, W.p('m_buf'), new_seq(E, st, 'char', n, {0: body}, name='packet'))

    def wr(E, s, a, ci):
        E.oblige(s, a[0].oid == E.pipes['m_controlPipe'].ptr.oid, 'precondition', 'replies go to the control pipe')
        E.oblige(s, bv(a[2], 64) == n, 'precondition', 'the whole packet is sent')
        src, i0 = src_range(E, s, a[1], a[2], 1)
        E.oblige(s, z3.Concat(*[bv(src.read(add64(i0, j)), 8) for j in reversed(range(8))]) == n, 'precondition', 'the packet starts with its length')
        E.oblige(s, z3.Implies(z3.And(z3.UGE(k, 8), z3.ULT(k, n)), bv(src.read(add64(i0, k)), 8) == bv(body.read(k), 8)), 'precondition', 'the values follow unchanged')
        g(s, nsent=s.ghost['nsent'] + 1)
    handler(E, r'^NamedPipe::write\(void const\*', wr, 'NamedPipe::write queues the bytes in order (property N01)')
    E.targets.append('Agent::writePacket')
    for s, o in E.exec_fn(st, E.find_fn(r'^Agent::writePacket\('), [A.ptr, W.ptr]):
        if isinstance(o, Ret):
            E.oblige(s, s.ghost['nsent'] == 1, 'postcondition', 'one packet is sent')


def unit_new_packet(ctx):
    E, st, A = agent(ctx)
    install_write(E)
    r = E.new_cells(st, class_size(E, 'WriteBuffer'), 'ret')
    for s, o in E.exec_fn(st, E.find_fn(r'newPacket\(\)$'), [r]):
        it = items(s, r)
        E.oblige(s, kinds(it) == ['raw64'], 'postcondition', 'a packet starts with room for its length')


def unit_poll_control(ctx):
    """Agent::pollControlPipe: each complete packet is handed on once, in order; the rest stays"""
    E, st, A = agent(ctx, [BUF])
    S = FArr.base(8, 'stream')
    n = z3.BitVec('avail', 64)       # bytes received and not yet read
    rbs = z3.BitVec('rbs', 64)
    E.inputs['avail'] = n
    st.assume(z3.And(z3.ULE(n, 1 << 40), z3.ULE(rbs, 1 << 40)))
    # the library sends packets of at least 8 bytes (writePacket there)
    g(st, pos=w64(0), handed=w64(0), rbs=rbs, down=0, inpos=w64(0), insz=w64(0), pending=z3.BoolVal(False))
    ctl = E.pipes['m_controlPipe'].ptr
    le8 = lambda p: z3.Concat(*[bv(S.read(p + j), 8) for j in reversed(range(8))])
    q = z3.BitVec('q', 64)
    closed = z3.BitVec('closed', 1)
    handler(E, r'^NamedPipe::isClosed\(', lambda E, s, a, ci: closed, 'NamedPipe::isClosed')

    def copy_out(E, s, a, m):
        w = E.wobj(s, a[1])
        if w.kind == 'cells':
            if not E.must(s, m == 8):
                # a short peek leaves the rest of the variable as it was
                E.store_raw(s, a[1], fresh('partial', 64), 8)
                return
            E.store_raw(s, a[1], le8(s.ghost['pos']), 8)
            return
        f = w.fields[0]
        w.fields = dict(w.fields)
        w.fields[0] = (f[0], f[1].copy(divmod_lin(a[1].off, 1)[0], m, S, s.ghost['pos']))

    def peek(consume):
        def f(E, s, a, ci):
            E.oblige(s, a[0].oid == ctl.oid, 'precondition', 'the control pipe')
            sz = bv(a[2], 64)
            pos = s.ghost['pos']
            o = E.getobj(s, a[1], 'write')
            E.inb_sym(s, o, a[1].off, a[2], 'write')
            out = []
            for s2, full in E.fork(s, z3.ULE(sz, n - pos)):
                m = sz if full else n - pos
                copy_out(E, s2, a, m)
                if consume:
                    E.oblige(s2, pos == s2.ghost['handed'], 'precondition', 'earlier packets were handed on before more is read')
                    g(s2, pos=pos + m)
                out.append((s2, Ret(m)))
            return Outs(out)
        return f
    handler(E, r'^NamedPipe::peek\(', peek(False), 'NamedPipe::peek copies the first unread bytes (property N01)')
    handler(E, r'^NamedPipe::read\(', peek(True), 'NamedPipe::read takes the first unread bytes (property N01)')
    handler(E, r'^NamedPipe::bytesAvailable\(', lambda E, s, a, ci: n - s.ghost['pos'], 'NamedPipe::bytesAvailable')
    handler(E, r'^NamedPipe::readBufferSize\(', lambda E, s, a, ci: s.ghost['rbs'], 'NamedPipe::readBufferSize')

    def setrbs(E, s, a, ci):
        g(s, rbs=bv(a[1], 64))
    handler(E, r'^NamedPipe::setReadBufferSize\(', setrbs, 'NamedPipe::setReadBufferSize')

    def shut(E, s, a, ci):
        g(s, down=s.ghost['down'] + 1)
    handler(E, r'^EventLoop::shutdown\(', shut, 'EventLoop::shutdown')

    def c_handle(E, s, a, ci):
        R = View(E, 'ReadBuffer', a[1])
        sq = R.seq(s, 'm_buf')
        h = s.ghost['handed']
        sz = le8(h)
        f = farrs_of(E, s, sq)[0]
        E.oblige(s, bv(sq.len, 64) == sz, 'precondition', 'the packet handed on is as long as it says')
        E.oblige(s, bv(R.get(s, 'm_off'), 64) == 8, 'precondition', 'reading starts after the length')
        E.oblige(s, z3.Implies(z3.ULT(q, sz), bv(f.read(q), 8) == bv(S.read(h + q), 8)), 'precondition', 'the packet is the next bytes of the stream, unchanged')
        E.oblige(s, s.ghost['pos'] == h + sz, 'precondition', 'exactly the packet was taken from the pipe')
        g(s, handed=h + sz)
        b = s.copy()
        g(b, bad=True)
        return Outs([(s, Ret(None)), (b, decode_error(E, b))])
    contract(E, r'^Agent::handlePacket\(', c_handle, 'Agent::handlePacket: one packet (units handle*)')
    handler(E, r'^agentAssertFail\(', lambda E, s, a, ci: NoReturn(), 'a violated protocol ends the agent')

    # the peer's packets announce at least their own length field
    st.assume(z3.UGE(le8(w64(0)), 8))
    lp = LoopSpec('packets', lambda c: [('what was taken was handed on', c.st.ghost['pos'] == c.st.ghost['handed']),
                                        ('within what was received', z3.ULE(c.st.ghost['pos'], n))], fn=r'Agent::pollControlPipe',
                  decreases=lambda c: n - c.st.ghost['pos'])
    lp.pred = loop_calls(r'^NamedPipe::peek')
    E.loops = [lp]
    E.targets.append('Agent::pollControlPipe')
    for s, o in E.exec_fn(st, E.find_fn(r'^Agent::pollControlPipe\('), [A.ptr]):
        if not isinstance(o, Ret):
            continue
        pos = s.ghost['pos']
        rest = n - pos
        E.oblige(s, z3.Implies(closed == 1, z3.And(pos == 0, boolv(s.ghost['down'] == 1))), 'postcondition', 'a closed control pipe ends the agent')
        E.oblige(s, z3.Implies(closed == 0, boolv(s.ghost['down'] == 0)), 'postcondition', 'the agent goes on otherwise')
        E.oblige(s, z3.Implies(closed == 0, z3.Or(z3.ULT(rest, 8), z3.ULT(rest, le8(pos)))), 'postcondition', 'no complete packet is left waiting')
        E.oblige(s, pos == s.ghost['handed'], 'postcondition', 'the bytes of an incomplete packet stay in the pipe')
        E.oblige(s, z3.Implies(z3.And(closed == 0, z3.UGE(rest, 8)), z3.UGE(s.ghost['rbs'], le8(pos))), 'postcondition', 'the pipe makes room for the packet that is coming')


def unit_handle_packet(ctx):
    E, st, A = agent(ctx)
    install_read(E)
    en = enums(E)
    g(st, calls=())

    def rec(name):
        def f(E, s, a, ci):
            E.oblige(s, a[0].oid == A.ptr.oid and a[1].oid == R.oid, 'precondition', 'the same packet goes to the handler')
            g(s, calls=s.ghost['calls'] + (name,))
            b = s.copy()
            g(b, bad=True)
            return Outs([(s, Ret(None)), (b, decode_error(E, b))])
        return f
    R = E.new_cells(st, class_size(E, 'ReadBuffer'), 'packet')
    for n in PROTO:
        contract(E, r'^Agent::handle%sPacket\(' % n, rec(n), 'Agent::handle%sPacket' % n)
    E.merge = False
    for s, o in E.exec_fn(st, E.find_fn(r'^Agent::handlePacket\('), [A.ptr, R]):
        if not isinstance(o, Ret):
            E.oblige(s, s.ghost['bad'], 'postcondition', 'only a malformed packet fails')
            continue
        if not ob_kinds(E, s, s.ghost['rd'], ['i32'], 'the type is read once'):
            continue
        t = s.ghost['rd'][0][1]
        c = s.ghost['calls']
        E.oblige(s, len(c) <= 1, 'postcondition', 'a packet is handled once')
        if c:
            E.oblige(s, t == en[c[0]], 'postcondition', 'the handler is that of the packet type')
        else:
            E.oblige(s, z3.And([t != en[n] for n in PROTO]), 'postcondition', 'no known packet is ignored')


def unit_set_size(ctx):
    E, st, A = agent(ctx)
    install_read(E)
    install_write(E)
    contract(E, r'^Agent::writePacket\(', c_write_packet, 'Agent::writePacket: one length-prefixed packet (unit writePacket)')
    R = E.new_cells(st, class_size(E, 'ReadBuffer'), 'packet')
    g(st, resized=())

    def rz(E, s, a, ci):
        E.oblige(s, len(s.ghost['sent']) == 0, 'precondition', 'the reply comes after the resize')
        g(s, resized=s.ghost['resized'] + ((bv(a[1], 32), bv(a[2], 32)),))
    contract(E, r'^Agent::resizeWindow\(', rz, 'Agent::resizeWindow (unit resizeWindow)')
    E.merge = False
    for s, o in E.exec_fn(st, E.find_fn(r'^Agent::handleSetSizePacket\('), [A.ptr, R]):
        rd, sent = s.ghost['rd'], s.ghost['sent']
        if not isinstance(o, Ret):
            E.oblige(s, s.ghost['bad'], 'postcondition', 'only a malformed packet fails')
            E.oblige(s, not sent and not s.ghost['resized'], 'postcondition', 'a malformed request changes nothing')
            continue
        E.oblige(s, not s.ghost['bad'], 'postcondition', 'a malformed request is not answered')
        if ob_kinds(E, s, rd, PROTO['SetSize'][1:] + ['eof'], 'the request is columns, rows and nothing else'):
            rs = s.ghost['resized']
            E.oblige(s, len(rs) == 1 and E.must(s, z3.And(rs[0][0] == rd[0][1], rs[0][1] == rd[1][1])), 'postcondition', 'the requested size is applied, once')
        E.oblige(s, len(sent) == 1, 'postcondition', 'one reply')
        if len(sent) == 1:
            ob_kinds(E, s, sent[0], ['raw64'], 'the reply is empty')


def unit_process_list(ctx):
    E, st, A = agent(ctx)
    install_read(E)
    # the reply's process ids: how many were put, and the one at position k
    g(st, repn=w64(0), repk=w32(0), hdr=False, lerr=0)
    PID = FArr.base(32, 'pids')          # what the console reports
    LIM = 1 << 20

    def on_i32(E, s, p, v):
        if len(items(s, p)) < 2:
            return False
        g(s, repk=z3.If(s.ghost['repn'] == k, v, s.ghost['repk']), repn=s.ghost['repn'] + 1)
        return True
    install_write(E, on_i32)
    g(st, total=w32(0), filled=z3.BoolVal(False))

    def cpl(E, s, a, ci):
        c = fresh('procs', 32)
        n = bv(a[1], 32)
        s.assume(z3.ULE(c, LIM))         # far above what a console can have
        o = E.getobj(s, a[0], 'write')
        E.inb_sym(s, o, a[0].off, z3.ZeroExt(32, n) * 4, 'write')
        fits = z3.ULE(c, n)
        w = E.wobj(s, a[0])
        f = w.fields[0]
        w.fields = dict(w.fields)
        P = FArr.base(32, fresh_name('pids'))
        w.fields[0] = (f[0], f[1].copy(divmod_lin(a[0].off, 4)[0], z3.ZeroExt(32, z3.If(fits, c, w32(0))), P, 0))
        g(s, total=c, filled=fits, pk=bv(P.read(k), 32))
        return c
    g(st, pk=w32(0))
    handler(E, r'^GetConsoleProcessList$', cpl, 'GetConsoleProcessList: the count; the ids if they fit (at most 2^20 processes)')

    def c_wp(E, s, a, ci):
        g(s, nsent=s.ghost['nsent'] + 1, reply=items(s, a[1]))
    contract(E, r'^Agent::writePacket\(', c_wp, 'Agent::writePacket: one length-prefixed packet (unit writePacket)')
    R = E.new_cells(st, class_size(E, 'ReadBuffer'), 'packet')

    def vec(c):
        return seq_get(c.E, c.st, c.slot('processList'))
    l1 = LoopSpec('retry', lambda c: [('count is the last answer', bv(c['processCount'], 32) == c.st.ghost['total']), ('bounded', z3.ULE(c.st.ghost['total'], LIM)),
                                      ('the list was filled if it fitted', c.st.ghost['filled'] == z3.ULE(z3.ZeroExt(32, c.st.ghost['total']), bv(vec(c).len, 64))),
                                      ('ids in the list', z3.Implies(z3.And(c.st.ghost['filled'], z3.ULT(k, z3.ZeroExt(32, c.st.ghost['total']))), bv(farrs_of(c.E, c.st, vec(c))[0].read(k), 32) == c.st.ghost['pk'])),
                                      ('room', z3.And(z3.UGE(bv(vec(c).len, 64), 1), z3.ULE(bv(vec(c).len, 64), 2 * LIM)))], fn=r'handleGetConsoleProcessList', vars={'processCount': ('i', 32)},
                  decreases=lambda c: w64(4 * LIM) - bv(vec(c).len, 64))
    l1.pred = loop_calls(r'^GetConsoleProcessList')
    l2 = LoopSpec('ids', lambda c: [('one id per turn', z3.And(c.st.ghost['repn'] == z3.ZeroExt(32, bv(c['i'], 32)), z3.ULE(bv(c['i'], 32), c.st.ghost['total']))),
                                    ('the ids so far', z3.Implies(z3.ULT(k, c.st.ghost['repn']), c.st.ghost['repk'] == c.st.ghost['pk']))], fn=r'handleGetConsoleProcessList', vars={'i': ('i', 32)},
                  decreases=lambda c: c.st.ghost['total'] - bv(c['i'], 32))
    l2.pred = loop_calls(r'^WriteBuffer::putInt32')
    E.loops = [l1, l2]
    E.targets.append('Agent::handleGetConsoleProcessListPacket')
    for s, o in E.exec_fn(st, E.find_fn(r'^Agent::handleGetConsoleProcessListPacket\('), [A.ptr, R]):
        if not isinstance(o, Ret):
            E.oblige(s, s.ghost['bad'], 'postcondition', 'only a malformed packet fails')
            E.oblige(s, s.ghost['nsent'] == 0, 'postcondition', 'a malformed request is not answered')
            continue
        E.oblige(s, s.ghost['nsent'] == 1, 'postcondition', 'one reply')
        it = s.ghost.get('reply', ())
        if ob_kinds(E, s, it, ['raw64', 'i32'], 'the reply is the count, then the ids'):
            E.oblige(s, it[1][1] == s.ghost['total'], 'postcondition', 'the count is the console\'s')
            E.oblige(s, s.ghost['filled'], 'postcondition', 'the list was read completely')
            E.oblige(s, s.ghost['repn'] == z3.ZeroExt(32, s.ghost['total']), 'postcondition', 'one id for each process')
            E.oblige(s, z3.Implies(z3.ULT(k, s.ghost['repn']), s.ghost['repk'] == s.ghost['pk']), 'postcondition', 'each id is the console\'s, in order')


def sinfo(E, s, p, tag):
    """a screen buffer info with arbitrary content"""
    v = [fresh(tag + '.info', 16) for _ in range(11)]
    for i, x in enumerate(v):
        E.store_raw(s, padd(p, 2 * i), x, 2)
    return z3.Concat(v[8], v[7], v[6], v[5])        # srWindow


def console(ctx, extra=()):
    """agent whose scrapers and console are contracts; freezing is the real code"""
    E, st, A = agent(ctx, ['src/agent/Win32Console.cc'] + list(extra))
    C = View(E, 'Win32Console', A.p('m_console'))
    C.set(st, 'm_hwnd', Ptr(0, z3.BitVec('hwnd', 64)))
    f0 = C.get(st, 'm_frozen')
    st.assume(z3.ULE(bv(f0, 8), 1))
    g(st, real=bv(f0, 8) != 0, wrect=None, log=(), primary=0, freed=0)
    own = lambda n: E.new_cells(st, 16, n)
    E.obj = {n: own(n) for n in ('scraper', 'errscraper', 'errbuffer', 'input')}
    E.store_raw(st, A.p('m_primaryScraper'), E.obj['scraper'], 8)
    E.store_raw(st, A.p('m_consoleInput'), E.obj['input'], 8)

    def send(E, s, a, ci):
        m, w, l = bv(a[1], 32), bv(a[2], 64), bv(a[3], 64)
        E.oblige(s, hv(a[0]) == hv(C.get(s, 'm_hwnd', True)), 'precondition', 'the console window gets the message')
        cmd = z3.And(m == 0x112, z3.Or(w == 0xFFF2, w == 0xFFF5))
        esc = z3.And(m == 0x102, w == 27)
        E.oblige(s, z3.Or(cmd, esc), 'precondition', 'only mark, select-all and escape are sent')
        E.oblige(s, s.ghost['real'] == esc, 'precondition', 'selection starts only if none is active, and ends only if one is')
        g(s, real=cmd)
        return 0
    handler(E, r'^SendMessageW$', send, 'SendMessage: Mark or SelectAll starts a selection (freezes), Escape ends it')

    def opened(kind):
        def f(E, s, a, ci):
            b = E.new_cells(s, 16, 'primarybuffer')
            E.oblige(s, (bv(A.get(s, 'm_useConerr'), 8) != 0) == boolv(kind == 'stdout'), 'precondition', 'the primary buffer is the right one')
            out = []
            t = s.copy()
            out.append((t, Throw('@_ZTISt9bad_alloc', E.new_cells(t, 16, 'exc'))))
            E.store_raw(s, a[0], b, 8)
            g(s, primary=s.ghost['primary'] + 1)
            out.append((s, Ret(None)))
            return Outs(out)
        return f
    handler(E, r'^Win32ConsoleBuffer::openConout\(', opened('conout'), 'Win32ConsoleBuffer::openConout')
    handler(E, r'^Win32ConsoleBuffer::openStdout\(', opened('stdout'), 'Win32ConsoleBuffer::openStdout')

    def scrape(what):
        def f(E, s, a, ci):
            which = 'scraper' if a[0].oid == E.obj['scraper'].oid else 'errscraper'
            E.oblige(s, a[0].oid == E.obj[which].oid, 'precondition', 'one of the agent\'s scrapers')
            E.oblige(s, (a[1].oid == E.obj['errbuffer'].oid) == (which == 'errscraper'), 'precondition', 'each scraper gets its own buffer')
            info = a[-1]
            size = bv(E.load_raw(s, a[2], 4, None) if isinstance(a[2], Ptr) else a[2], 32) if what == 'resize' else None
            out = []
            for t in (s.copy(), s):
                nf = fresh('frozen', 8)
                t.assume(z3.ULE(nf, 1))
                C.set(t, 'm_frozen', nf)
                g(t, real=nf == 1)
                if t is s:
                    wr = sinfo(E, t, info, which)
                    g(t, log=t.ghost['log'] + ((what, which, size, wr),))
                    out.append((t, Ret(None)))
                else:
                    out.append((t, Throw('@_ZTISt9bad_alloc', E.new_cells(t, 16, 'exc'))))
            return Outs(out)
        return f
    note = 'Scraper::%s: may leave the console frozen or not, and may fail (property S03)'
    handler(E, r'^Scraper::resizeWindow\(', scrape('resize'), note % 'resizeWindow')
    handler(E, r'^Scraper::scrapeBuffer\(', scrape('scrape'), note % 'scrapeBuffer')
    handler(E, r'^ConsoleInput::setMouseWindowRect\(', lambda E, s, a, ci: g(s, wrect=z3.Concat(*[bv(E.load_raw(s, padd(a[1], 2 * i), 2, None), 16) for i in (3, 2, 1, 0)])), 'ConsoleInput::setMouseWindowRect')
    handler(E, r'^Win32ConsoleBuffer::~Win32ConsoleBuffer', lambda E, s, a, ci: None, 'Win32ConsoleBuffer::~Win32ConsoleBuffer')
    return E, st, A, C, f0


def with_err(E, st, A):
    """without and with a separate error buffer"""
    out = []
    for err in (False, True):
        s = st.copy()
        A.set(s, 'm_useConerr', int(err))
        E.store_raw(s, A.p('m_errorScraper'), E.obj['errscraper'] if err else Ptr(0, 0), 8)
        E.store_raw(s, A.p('m_errorBuffer'), E.obj['errbuffer'] if err else Ptr(0, 0), 8)
        out.append((err, s))
    return out


def restored(E, s, C, f0):
    E.oblige(s, bv(C.get(s, 'm_frozen'), 8) == bv(f0, 8), 'postcondition', 'the frozen state is as it was before, however the operation ended')
    E.oblige(s, s.ghost['real'] == (bv(C.get(s, 'm_frozen'), 8) != 0), 'postcondition', 'the console really is in the recorded state')


def unit_resize_window(ctx):
    """Agent::resizeWindow: the clamped size reaches every scraper; the console is left as it was"""
    E, st, A, C, f0 = console(ctx)
    cols, rows = z3.BitVecs('cols rows', 32)
    E.inputs.update(cols=cols, rows=rows)
    st.assume(z3.And(cols >= 1, rows >= 1))
    bs = z3.BitVec('bufsize', 32)
    handler(E, r'^Win32ConsoleBuffer::bufferSize\(', lambda E, s, a, ci: E.store_raw(s, a[0], bs, 4), 'Win32ConsoleBuffer::bufferSize')
    handler(E, r'^GetStdHandle$', lambda E, s, a, ci: Ptr(0, 0x77) if a[0] in (-10, 0xFFFFFFF6) else Ptr(0, fresh('std', 64)), 'GetStdHandle')

    def wci(E, s, a, ci):
        E.oblige(s, hv(a[0]) == 0x77, 'precondition', 'the record goes to the console input')
        E.oblige(s, bv(a[2], 32) == 1, 'precondition', 'one record')
        E.oblige(s, z3.And(bv(E.load_raw(s, a[1], 2, None), 16) == 4, bv(E.load_raw(s, padd(a[1], 4), 4, None), 32) == bs), 'precondition', 'a window size record with the buffer size')
        g(s, log=s.ghost['log'] + (('event',),))
        return fresh('ok', 32)
    handler(E, r'^WriteConsoleInputW$', wci, 'WriteConsoleInputW')
    lim = lambda v, m: z3.Extract(15, 0, z3.If(v > m, w32(m), v))
    want = z3.Concat(lim(rows, 2000), lim(cols, 2500))
    E.targets.append('Agent::resizeWindow')
    E.merge = False
    for err, s0 in with_err(E, st, A):
        for s, o in E.exec_fn(s0, E.find_fn(r'^Agent::resizeWindow\('), [A.ptr, cols, rows]):
            restored(E, s, C, f0)
            if not isinstance(o, Ret):
                continue
            log = s.ghost['log']
            E.oblige(s, [x[:2] for x in log] == [('resize', 'scraper')] + ([('resize', 'errscraper')] if err else []) + [('event',)], 'postcondition', 'every buffer is resized once, then programs are told')
            for x in log:
                if x[0] == 'resize':
                    E.oblige(s, x[2] == want, 'postcondition', 'the size is the requested one, clamped to what the console can hold')
            E.oblige(s, s.ghost['wrect'] is not None and E.must(s, s.ghost['wrect'] == log[0][3]), 'postcondition', 'mouse positions are taken relative to the new window')


def unit_scrape_buffers(ctx):
    E, st, A, C, f0 = console(ctx)
    E.targets.append('Agent::scrapeBuffers')
    E.merge = False
    for err, s0 in with_err(E, st, A):
        for s, o in E.exec_fn(s0, E.find_fn(r'^Agent::scrapeBuffers\('), [A.ptr]):
            restored(E, s, C, f0)
            if not isinstance(o, Ret):
                continue
            log = s.ghost['log']
            E.oblige(s, [x[:2] for x in log] == [('scrape', 'scraper')] + ([('scrape', 'errscraper')] if err else []), 'postcondition', 'every buffer is scraped once')
            E.oblige(s, s.ghost['wrect'] is not None and E.must(s, s.ghost['wrect'] == log[0][3]), 'postcondition', 'mouse positions are taken relative to the window')


def unit_start_process(ctx):
    """Agent::handleStartProcessPacket: the request reaches CreateProcess unchanged; the reply is its outcome"""
    E, st, A = agent(ctx)
    install_read(E)
    install_write(E)
    m = E.ctx.module(TU_MSG)
    en = enums(E)
    g(st, cp=(), dups=(), closed=(), lasterr=z3.BitVec('err0', 32))
    hp, ht, ecp = Ptr(0, z3.BitVec('hProcess', 64)), Ptr(0, z3.BitVec('hThread', 64)), z3.BitVec('createError', 32)
    std = {x: Ptr(0, 0x500 + x) for x in (10, 11, 12)}
    conerr = Ptr(0, z3.BitVec('conerr', 64))

    def clobber(s):
        g(s, lasterr=fresh('lasterr', 32))

    def clob(v):
        def f(E, s, a, ci):
            clobber(s)
            return v() if v else None
        return f
    handler(E, r'^trace\(', clob(None), 'trace: may change the last error')
    handler(E, r'^GetLastError$', lambda E, s, a, ci: s.ghost['lasterr'], 'GetLastError: of the last failing call')
    handler(E, r'^GetCurrentProcess$', lambda E, s, a, ci: Ptr(0, 2 ** 64 - 1), 'GetCurrentProcess')

    def getstd(E, s, a, ci):
        clobber(s)
        n = a[0] if isinstance(a[0], int) else None
        if n is None:
            raise Unsupported('unknown standard handle')
        return std[(2 ** 32 - n) % 2 ** 32]
    handler(E, r'^GetStdHandle$', getstd, 'GetStdHandle')
    handler(E, r'^Win32ConsoleBuffer::conout\(', lambda E, s, a, ci: conerr, 'Win32ConsoleBuffer::conout')

    def arg(s, p):
        """contents of a string argument: None, or (farr, start, length allowed)"""
        if isinstance(p, Ptr) and p.oid == 0:
            return None
        o = E.getobj(s, p, 'read')
        r = divmod_lin(p.off, 2)
        if o.kind != 'arr' or r is None or r[1]:
            raise Unsupported('string argument')
        return (o.fields[0][1], r[0], p)

    def strarg(s, p, it, what, nul):
        n = it[1]
        if isinstance(p, Ptr) and p.oid == 0:
            E.oblige(s, z3.And(n == 0, hv(p) == 0), 'precondition', what + ': absent only if empty')
            return
        E.oblige(s, n != 0, 'precondition', what + ': an empty one is not passed')
        E.inb_sym(s, E.getobj(s, p, 'read'), p.off, (n + (1 if nul else 0)) * 2, 'read')
        f, i0, _ = arg(s, p)
        E.oblige(s, z3.Implies(z3.ULT(k, n), bv(f.read(add64(i0, k)), 16) == bv(it[2].read(k), 16)), 'precondition', what + ' is the requested one')
        if nul:
            E.oblige(s, bv(f.read(add64(i0, n)), 16) == 0, 'precondition', what + ' is terminated')

    def create(E, s, a, ci):
        rd = s.ghost['rd']
        E.oblige(s, kinds(rd) == PROTO['StartProcess'] [1:] + ['eof'] if False else kinds(rd) == SP, 'precondition', 'the whole request was read first')
        if kinds(rd) != SP:
            raise Abort()
        prog, cmd, cwd, env, desk = rd[3:8]
        strarg(s, a[0], prog, 'program', True)
        strarg(s, a[1], cmd, 'command line', True)
        if not (isinstance(a[1], Ptr) and a[1].oid == 0):
            E.oblige(s, z3.BoolVal(a[1].oid != cmd[3]), 'precondition', 'the command line buffer may be written to')
        strarg(s, a[7], cwd, 'directory', True)
        strarg(s, a[6], env, 'environment', False)
        E.oblige(s, z3.And(hv(a[2]) == 0, hv(a[3]) == 0), 'precondition', 'default security for the process and thread')
        E.oblige(s, bv(a[5], 32) == 0x400, 'precondition', 'the environment is Unicode, no other creation flag')
        sui = a[8]
        lp = E.load_raw(s, padd(sui, 16), 8, ('ptr',))
        strarg(s, lp, desk, 'desktop', True)
        ce = bv(A.get(s, 'm_useConerr'), 8) != 0
        fl = bv(E.load_raw(s, padd(sui, 60), 4, None), 32)
        E.oblige(s, bv(E.load_raw(s, sui, 4, None), 32) == 104, 'precondition', 'STARTUPINFO has its size')
        E.oblige(s, z3.And(bv(a[4], 32) == z3.If(ce, w32(1), w32(0)), fl == z3.If(ce, w32(0x100), w32(0))), 'precondition', 'handles are inherited only for the separate error console')
        h = lambda o: hv(E.load_raw(s, padd(sui, o), 8, ('ptr',)))
        for o, v in ((80, std[10]), (88, std[11]), (96, conerr)):
            E.oblige(s, z3.Implies(ce, h(o) == hv(v)), 'precondition', 'standard handles are the console\'s')
        f = s.copy()
        g(f, cp=s.ghost['cp'] + (False,), lasterr=ecp)
        E.store_raw(s, a[9], hp, 8)
        E.store_raw(s, padd(a[9], 8), ht, 8)
        g(s, cp=s.ghost['cp'] + (True,))
        clobber(s)
        ok = fresh('ok', 32)
        s.assume(ok != 0)
        return Outs([(f, Ret(0)), (s, Ret(ok))])
    handler(E, r'^CreateProcessW$', create, 'CreateProcessW: the process and thread handle, or an error code')

    def dup(E, s, a, ci):
        E.oblige(s, z3.And(hv(a[0]) == w64(2 ** 64 - 1), hv(a[2]) == w64(2 ** 64 - 1), bv(a[6], 32) == 2), 'precondition', 'a handle with the same access')
        v = Ptr(0, fresh('dup', 64))
        b = s.copy()
        clobber(b)
        clobber(s)
        E.store_raw(s, a[3], v, 8)
        g(s, dups=s.ghost['dups'] + ((hv(a[1]), hv(v)),))
        return Outs([(s, Ret(1)), (b, Ret(0))])
    handler(E, r'^DuplicateHandle$', dup, 'DuplicateHandle: a new handle to the same object, or failure')
    handler(E, r'^agentAssertFail\(', lambda E, s, a, ci: NoReturn(), 'a failed assertion ends the agent')

    def close(E, s, a, ci):
        clobber(s)
        g(s, closed=s.ghost['closed'] + (hv(a[0]),))
        return 1
    handler(E, r'^CloseHandle$', close, 'CloseHandle')
    contract(E, r'^Agent::writePacket\(', c_write_packet, 'Agent::writePacket: one length-prefixed packet (unit writePacket)')
    R = E.new_cells(st, class_size(E, 'ReadBuffer'), 'packet')
    A.set(st, 'm_childProcess', Ptr(0, 0))
    A.set(st, 'm_closingOutputPipes', 0)
    E.store_raw(st, A.p('m_errorBuffer'), E.new_cells(st, 16, 'errbuffer'), 8)
    SP = PROTO['StartProcess'][1:] + ['eof']
    auto0, exit0 = A.get(st, 'm_autoShutdown'), A.get(st, 'm_exitAfterShutdown')
    E.merge = False
    E.targets.append('Agent::handleStartProcessPacket')
    for s, o in E.exec_fn(st, E.find_fn(r'^Agent::handleStartProcessPacket\('), [A.ptr, R]):
        rd, sent, cp, cl = s.ghost['rd'], s.ghost['sent'], s.ghost['cp'], s.ghost['closed']
        if not isinstance(o, Ret):
            if isinstance(o, Throw):
                E.oblige(s, s.ghost['bad'] and not cp and not sent, 'postcondition', 'a malformed request starts nothing and is not answered')
            continue
        if not ob_kinds(E, s, rd, SP, 'the request is read completely'):
            continue
        E.oblige(s, len(cp) == 1 and len(sent) == 1, 'postcondition', 'one process creation, one reply')
        if len(cp) != 1 or len(sent) != 1:
            continue
        E.oblige(s, z3.BoolVal(all(E.must(s, h == hv(ht)) for h in cl) and len(cl) == (1 if cp[0] else 0)), 'postcondition', 'the thread handle is closed once and the process handle stays open')
        rep, fl = sent[0], rd[0][1]
        if cp[0]:
            if not ob_kinds(E, s, rep, ['raw64', 'i32', 'i64', 'i64'], 'success is answered with the two handles'):
                continue
            E.oblige(s, rep[1][1] == en['ProcessCreated'], 'postcondition', 'success is reported')
            d = list(s.ghost['dups'])
            for i, (src, name) in enumerate(((hp, 'process'), (ht, 'thread'))):
                want = E.must(s, rd[1 + i][1] != 0)
                v = rep[2 + i][1]
                if want:
                    E.oblige(s, bool(d), 'postcondition', 'the requested %s handle is sent' % name)
                    if d:
                        a, b = d.pop(0)
                        E.oblige(s, z3.And(a == hv(src), v == b), 'postcondition', 'the %s handle sent is the new process\'s' % name)
                else:
                    E.oblige(s, rd[1 + i][1] == 0, 'postcondition', 'the %s handle is either wanted or not' % name)
                    E.oblige(s, v == 0, 'postcondition', 'no %s handle is sent if none was requested' % name)
            E.oblige(s, not d, 'postcondition', 'no other handle is created')
            E.oblige(s, hv(A.get(s, 'm_childProcess', True)) == hv(hp), 'postcondition', 'the agent keeps the child process')
            E.oblige(s, z3.And((bv(A.get(s, 'm_autoShutdown'), 8) != 0) == ((fl & 1) != 0), (bv(A.get(s, 'm_exitAfterShutdown'), 8) != 0) == ((fl & 2) != 0)), 'postcondition', 'the spawn flags take effect')
        else:
            if not ob_kinds(E, s, rep, ['raw64', 'i32', 'i32'], 'failure is answered with the error code'):
                continue
            E.oblige(s, z3.And(rep[1][1] == en['CreateProcessFailed'], rep[2][1] == ecp), 'postcondition', 'the failure and its exact error code are reported')
            E.oblige(s, not s.ghost['dups'], 'postcondition', 'no handle is created on failure')
            E.oblige(s, hv(A.get(s, 'm_childProcess', True)) == 0, 'postcondition', 'there is no child after a failure')
            E.oblige(s, z3.And(bv(A.get(s, 'm_autoShutdown'), 8) == bv(auto0, 8), bv(A.get(s, 'm_exitAfterShutdown'), 8) == bv(exit0, 8)), 'postcondition', 'a failed spawn changes no mode')


def outpipes(ctx):
    """agent with output pipes whose connection, backlog and end are arbitrary"""
    E, st, A = agent(ctx)
    for n in ('m_conerrPipe',):
        E.pipes[n] = new_object(E, st, 'NamedPipe', n)
    OUT = ('m_conoutPipe', 'm_conerrPipe')
    g(st, down=0, log=())
    for n in OUT:
        g(st, **{'conn:' + n: z3.Bool('connected.' + n), 'shut:' + n: z3.Bool('closed.' + n), 'left:' + n: z3.BitVec('left.' + n, 64)})
        st.assume(z3.Not(z3.And(st.ghost['conn:' + n], st.ghost['shut:' + n])))
    E.saved = dict(st.ghost)

    def which(a):
        for n, P in E.pipes.items():
            if a.oid == P.ptr.oid:
                return n
        raise Unsupported('an unknown pipe')

    def q(key):
        return lambda E, s, a, ci: z3.If(s.ghost[key + which(a[0])], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    handler(E, r'^NamedPipe::isConnected\(', q('conn:'), 'NamedPipe::isConnected')
    handler(E, r'^NamedPipe::isClosed\(', q('shut:'), 'NamedPipe::isClosed')
    handler(E, r'^NamedPipe::bytesToSend\(', lambda E, s, a, ci: s.ghost['left:' + which(a[0])], 'NamedPipe::bytesToSend: bytes queued or in transfer (property N01)')

    def close(E, s, a, ci):
        n = which(a[0])
        E.oblige(s, n in OUT, 'precondition', 'only output pipes are closed')
        if n in OUT:
            E.oblige(s, bv(A.get(s, 'm_closingOutputPipes'), 8) != 0, 'precondition', 'an output pipe is closed only after the child has ended')
            E.oblige(s, s.ghost['conn:' + n], 'precondition', 'only a connected pipe is closed')
            E.oblige(s, s.ghost['left:' + n] == 0, 'precondition', 'no byte is left unsent when a pipe is closed')
        g(s, **{'conn:' + n: z3.BoolVal(False), 'shut:' + n: z3.BoolVal(True), 'log': s.ghost['log'] + (('close', n),)})
        return None
    handler(E, r'^NamedPipe::closePipe\(', close, 'NamedPipe::closePipe')

    def shut(E, s, a, ci):
        g(s, down=s.ghost['down'] + 1)
    handler(E, r'^EventLoop::shutdown\(', shut, 'EventLoop::shutdown')
    return E, st, A, OUT


def err_cases(E, st, A):
    out = []
    for err in (False, True):
        s = st.copy()
        A.set(s, 'm_useConerr', int(err))
        A.set(s, 'm_conerrPipe', E.pipes['m_conerrPipe'].ptr if err else Ptr(0, 0))
        out.append((err, s))
    return out


def closing_rules(E, s, A, err, names):
    """postcondition of autoClosePipesForShutdown"""
    cl = bv(A.get(s, 'm_closingOutputPipes'), 8) != 0
    g0 = s.ghost
    for n in names:
        E.oblige(s, z3.Implies(cl, z3.Not(z3.And(g0['conn:' + n], g0['left:' + n] == 0))), 'postcondition', 'a pipe whose output was delivered is closed')
    allshut = z3.And([g0['shut:' + n] for n in names])
    ex = bv(A.get(s, 'm_exitAfterShutdown'), 8) != 0
    E.oblige(s, z3.And(cl, ex, allshut) == boolv(g0['down'] >= 1), 'postcondition', 'the agent ends exactly when that was asked for and every output pipe is closed')


def unit_auto_close(ctx):
    E, st, A, OUT = outpipes(ctx)
    E.targets.append('Agent::autoClosePipesForShutdown')
    E.merge = False
    for err, s0 in err_cases(E, st, A):
        names = OUT if err else OUT[:1]
        pre = [bv(A.get(s0, n), 8) for n in BOOLS]
        for s, o in E.exec_fn(s0, E.find_fn(r'^Agent::autoClosePipesForShutdown\('), [A.ptr]):
            if not isinstance(o, Ret):
                continue
            closing_rules(E, s, A, err, names)
            E.oblige(s, z3.And([bv(A.get(s, n), 8) == v for n, v in zip(BOOLS, pre)]), 'frame', 'no mode changes')
            if not err:
                E.oblige(s, ('close', OUT[1]) not in s.ghost['log'], 'postcondition', 'no pipe that is not there is closed')


def unit_poll_timeout(ctx):
    """Agent::onPollTimeout: one last scrape after the child ended, then the pipes drain and close"""
    E, st, A, OUT = outpipes(ctx)
    child = z3.BitVec('child', 64)
    A.set(st, 'm_childProcess', Ptr(0, child))
    E.obj = {n: E.new_cells(st, 16, n) for n in ('scraper', 'input', 'terminal')}
    E.store_raw(st, A.p('m_primaryScraper'), E.obj['scraper'], 8)
    E.store_raw(st, A.p('m_consoleInput'), E.obj['input'], 8)
    g(st, ended=z3.BoolVal(False), waited=False)
    mouse = z3.BitVec('wantmouse', 1)
    handler(E, r'^ConsoleInput::updateInputFlags\(', lambda E, s, a, ci: g(s, log=s.ghost['log'] + (('flags',),)), 'ConsoleInput::updateInputFlags (property I06)')
    handler(E, r'^ConsoleInput::shouldActivateTerminalMouse\(', lambda E, s, a, ci: mouse, 'ConsoleInput::shouldActivateTerminalMouse (property I06)')
    handler(E, r'^ConsoleInput::flushIncompleteEscapeCode\(', lambda E, s, a, ci: g(s, log=s.ghost['log'] + (('flush',),)), 'ConsoleInput::flushIncompleteEscapeCode (property I04)')

    def wait(E, s, a, ci):
        E.oblige(s, z3.And(hv(a[0]) == child, child != 0, bv(a[1], 32) == 0), 'precondition', 'the child is looked at without waiting')
        r = fresh('wait', 32)
        g(s, ended=r == 0, waited=True)
        return r
    handler(E, r'^WaitForSingleObject$', wait, 'WaitForSingleObject: zero exactly when the process has ended')

    def close(E, s, a, ci):
        E.oblige(s, z3.And(hv(a[0]) == child, s.ghost['ended']), 'precondition', 'the child handle is closed after its end')
        g(s, log=s.ghost['log'] + (('closechild',),))
        return 1
    handler(E, r'^CloseHandle$', close, 'CloseHandle')

    def work(n, pipes):
        def f(E, s, a, ci):
            g(s, log=s.ghost['log'] + ((n, s.ghost['waited'], a[1] if n == 'mouse' else None),))
            for p in pipes:
                v = fresh('left', 64)
                s.assume(z3.UGE(v, s.ghost['left:' + p]))
                g(s, **{'left:' + p: v})
            if n == 'mouse':
                E.oblige(s, not any(x[0] == 'close' for x in s.ghost['log']), 'precondition', 'the mouse mode is settled before a pipe is closed')
            return None
        return f
    contract(E, r'^Agent::scrapeBuffers\(', work('scrape', OUT), 'Agent::scrapeBuffers: queues the console\'s new output (unit scrapeBuffers)')
    contract(E, r'^Agent::syncConsoleTitle\(', work('title', OUT[:1]), 'Agent::syncConsoleTitle (property T03)')
    handler(E, r'^Terminal::enableMouseMode\(', work('mouse', OUT[:1]), 'Terminal::enableMouseMode (property T03)')
    handler(E, r'^Scraper::terminal\(', lambda E, s, a, ci: E.obj['terminal'], 'Scraper::terminal')
    E.targets.append('Agent::onPollTimeout')
    E.merge = False
    for err, s0 in err_cases(E, st, A):
        names = OUT if err else OUT[:1]
        was = bv(A.get(s0, 'm_closingOutputPipes'), 8) != 0
        au = bv(A.get(s0, 'm_autoShutdown'), 8) != 0
        for s, o in E.exec_fn(s0, E.find_fn(r'^Agent::onPollTimeout\('), [A.ptr]):
            if not isinstance(o, Ret):
                continue
            closing_rules(E, s, A, err, names)
            log = s.ghost['log']
            now = bv(A.get(s, 'm_closingOutputPipes'), 8) != 0
            E.oblige(s, now == z3.Or(was, z3.And(au, child != 0, s.ghost['ended'])), 'postcondition', 'output ends exactly after the child ended and automatic shutdown was asked for')
            sc = [x for x in log if x[0] == 'scrape']
            E.oblige(s, boolv(len(sc) == 1) == z3.Not(was), 'postcondition', 'the console is scraped once, until the output was ended')
            E.oblige(s, len(sc) <= 1, 'postcondition', 'one scrape')
            E.oblige(s, z3.Implies(z3.And(now, z3.Not(was)), boolv(any(x[1] for x in sc))), 'postcondition', 'the last scrape comes after the child was seen to have ended')
            m = [x for x in log if x[0] == 'mouse']
            E.oblige(s, len(m) == 1, 'postcondition', 'the mouse mode is brought up to date')
            if len(m) == 1:
                E.oblige(s, (bv(m[0][2], 1) == 1) == z3.And(mouse == 1, z3.Not(now)), 'postcondition', 'the mouse mode is as the program wants, and off once output ends')
            E.oblige(s, boolv(any(x[0] == 'flush' for x in log)), 'postcondition', 'an incomplete escape sequence gets its chance to be flushed')
            h = hv(A.get(s, 'm_childProcess', True))
            done = ('closechild',) in log
            E.oblige(s, h == 0 if done else h == child, 'postcondition', 'the child handle is given up exactly when it was closed')
            E.oblige(s, log.count(('closechild',)) <= 1, 'postcondition', 'the child handle is closed once')


def unit_pipe_io(ctx):
    """Agent::onPipeIo: each pipe's event goes to its handler"""
    E, st, A = agent(ctx)
    E.pipes['m_conerrPipe'] = new_object(E, st, 'NamedPipe', 'm_conerrPipe')
    g(st, log=())
    want = {'m_conoutPipe': 'autoClosePipesForShutdown', 'm_conerrPipe': 'autoClosePipesForShutdown', 'm_coninPipe': 'pollConinPipe', 'm_controlPipe': 'pollControlPipe'}
    for n in set(want.values()):
        contract(E, r'^Agent::%s\(' % n, (lambda n: lambda E, s, a, ci: g(s, log=s.ghost['log'] + (n,)))(n), 'Agent::' + n)
    E.merge = False
    for err in (False, True):
        for n, w in want.items():
            if n == 'm_conerrPipe' and not err:
                continue
            s0 = st.copy()
            A.set(s0, 'm_conerrPipe', E.pipes['m_conerrPipe'].ptr if err else Ptr(0, 0))
            for s, o in E.exec_fn(s0, E.find_fn(r'^Agent::onPipeIo\('), [A.ptr, E.pipes[n].ptr]):
                E.oblige(s, s.ghost['log'] == (w,), 'postcondition', 'an event on %s leads to %s' % (n, w))


def unit_sync_title(ctx):
    """Agent::syncConsoleTitle: a changed title is sent as one title sequence, never in plain mode"""
    E, st, A = agent(ctx, [BUF])
    n, n0, ln = z3.BitVecs('n n0 len', 64)
    st.assume(z3.And(z3.ULE(n, 1 << 20), z3.ULE(n0, 1 << 20), z3.ULE(ln, 1 << 24)))
    T, T0, U8 = FArr.base(16, 'title'), FArr.base(16, 'oldtitle'), FArr.base(8, 'utf8')
    seq_put(E, st, A.p('m_currentTitle'), new_seq(E, st, 'wchar_t', n0, {0: T0.set(n0, 0)}, isstr=True, name='oldtitle'))
    closed = z3.BitVec('closed', 1)
    g(st, wr=0)

    handler(E, r'^(std::)?w?memcmp(\(|$)', memcmp, 'C memcmp/wmemcmp')

    def title(E, s, a, ci):
        seq_put(E, s, a[0], new_seq(E, s, 'wchar_t', n, {0: T.set(n, 0)}, isstr=True, name='title'))
    handler(E, r'^Win32Console::title\(', title, 'Win32Console::title: the current title')

    def u8(E, s, a, ci):
        q = seq_get(E, s, a[1])
        E.oblige(s, z3.And(bv(q.len, 64) == n, z3.Implies(z3.ULT(k, n), bv(farrs_of(E, s, q)[0].read(k), 16) == bv(T.read(k), 16))), 'precondition', 'the new title is the one sent')
        j = fresh('j', 64)
        seq_put(E, s, a[0], new_seq(E, s, 'char', ln, {0: U8.set(ln, 0)}, isstr=True, name='utf8'))
    handler(E, r'^utf8FromWide\(', u8, 'utf8FromWide (property D02)')
    handler(E, r'^NamedPipe::isClosed\(', lambda E, s, a, ci: closed, 'NamedPipe::isClosed')

    def wr(E, s, a, ci):
        E.oblige(s, z3.And(boolv(a[0].oid == E.pipes['m_conoutPipe'].ptr.oid), bv(A.get(s, 'm_plainMode'), 8) == 0, closed == 0), 'precondition', 'a title is written to the open output pipe, never in plain mode')
        pre = b'\x1b]0;'
        for i, c in enumerate(pre):
            E.oblige(s, bv(E.load_raw(s, padd(a[1], i), 1, None), 8) == c, 'precondition', 'the title sequence starts as it should')
        f, i0 = src_range(E, s, a[1], ln + 6, 1)
        E.oblige(s, z3.Implies(z3.ULT(k, ln), bv(f.read(add64(i0, k + 4)), 8) == bv(U8.read(k), 8)), 'precondition', 'the title follows')
        E.oblige(s, z3.And(bv(f.read(add64(i0, ln + 4)), 8) == 7, bv(f.read(add64(i0, ln + 5)), 8) == 0), 'precondition', 'the title sequence is ended')
        g(s, wr=s.ghost['wr'] + 1)
    handler(E, r'^NamedPipe::write\(char const\*\)', wr, 'NamedPipe::write queues the bytes in order (property N01)')
    E.targets.append('Agent::syncConsoleTitle')
    E.merge = False
    for s, o in E.exec_fn(st, E.find_fn(r'^Agent::syncConsoleTitle\('), [A.ptr]):
        if not isinstance(o, Ret):
            continue
        q = A.seq(s, 'm_currentTitle')
        f = farrs_of(E, s, q)[0]
        E.oblige(s, z3.And(bv(q.len, 64) == n, z3.Implies(z3.ULT(k, n), bv(f.read(k), 16) == bv(T.read(k), 16))), 'postcondition', 'the title is remembered')
        E.oblige(s, s.ghost['wr'] <= 1, 'postcondition', 'one title sequence')
        live = z3.And(bv(A.get(s, 'm_plainMode'), 8) == 0, closed == 0)
        if not s.ghost['wr']:
            E.oblige(s, z3.Implies(live, z3.And(n == n0, z3.Implies(z3.ULT(k, n), bv(T.read(k), 16) == bv(T0.read(k), 16)))), 'postcondition', 'a changed title is sent')


def unit_poll_conin(ctx):
    """Agent::pollConinPipe: every byte read goes to the input parser once, in order"""
    E, st, A = agent(ctx, [BUF])
    n = z3.BitVec('n', 64)
    st.assume(z3.ULE(n, 1 << 40))
    D = FArr.base(8, 'data')
    E.obj = {'input': E.new_cells(st, 16, 'input')}
    E.store_raw(st, A.p('m_consoleInput'), E.obj['input'], 8)
    g(st, reads=0, fed=w64(0))

    def rd(E, s, a, ci):
        E.oblige(s, a[1].oid == E.pipes['m_coninPipe'].ptr.oid, 'precondition', 'the input pipe is read')
        g(s, reads=s.ghost['reads'] + 1)
        seq_put(E, s, a[0], new_seq(E, s, 'char', n, {0: D.set(n, 0)}, isstr=True, name='data'))
    handler(E, r'^NamedPipe::readAllToString\(', rd, 'NamedPipe::readAllToString takes all bytes received (property N01)')

    def wi(E, s, a, ci):
        q = seq_get(E, s, a[1])
        f, fed = farrs_of(E, s, q)[0], s.ghost['fed']
        m = bv(q.len, 64)
        E.oblige(s, z3.And(z3.ULE(m, n - fed), z3.Implies(z3.ULT(k, m), bv(f.read(k), 8) == bv(D.read(fed + k), 8))), 'precondition', 'the next bytes, unchanged')
        g(s, fed=fed + m)
    handler(E, r'^ConsoleInput::writeInput\(', wi, 'ConsoleInput::writeInput')
    l = LoopSpec('bytes', lambda c: [('fed so far', z3.And(c.st.ghost['fed'] == bv(c['i'], 64), z3.ULE(bv(c['i'], 64), n)))], fn=r'pollConinPipe', vars={'i': ('i', 64)}, decreases=lambda c: n - bv(c['i'], 64))
    l.pred = loop_calls(r'^ConsoleInput::writeInput')
    E.loops = [l]
    E.targets.append('Agent::pollConinPipe')
    for s, o in E.exec_fn(st, E.find_fn(r'^Agent::pollConinPipe\('), [A.ptr]):
        if isinstance(o, Ret):
            E.oblige(s, z3.And(boolv(s.ghost['reads'] == 1), s.ghost['fed'] == n), 'postcondition', 'all received bytes are handed to the parser')
