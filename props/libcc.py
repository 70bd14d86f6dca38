"""libwinpty/winpty.cc under contract (properties L01, L02, L03, L04, G01, N02)."""
from rpc import *
import re

WP, OH, BUF = 'src/libwinpty/winpty.cc', 'src/shared/OwnedHandle.cc', 'src/shared/Buffer.cc'
LIBEXC, WINEXC, BADALLOC = '@_ZTI18LibWinptyException', '@_ZTI15WinptyException', '@_ZTISt9bad_alloc'
H_PIPE, H_AGENT, H_EVENT = (z3.BitVec(n, 64) for n in ('hPipe', 'hAgent', 'hEvent'))
ERR = dict(UNSPECIFIED=5, OOM=1, SPAWN=2, LOST=3, EXE=4, DIED=6, TIMEOUT=7, AGENT=8)
INV = w64(2 ** 64 - 1)
T_EXIT, IO_PENDING = 'assertion', 997


def opt(E, pat, fn, label):
    """a contract on an internal helper, when there is a function of that name; otherwise its code is used"""
    r = re.compile(pat)
    if any(r.search(d) for d in E.dem.values()):
        contract(E, pat, fn, label)
        return True
    return False




def xthrow(E, s, ti, code):
    g(s, exc=code)
    return (s, Throw(ti, E.new_cells(s, 64, 'exc')))


def install_exc(E):
    """exceptions: their class and code; each allocation of one may fail"""
    def lib(E, s, a, ci):
        msg_ok(E, s, a[2])
        b = s.copy()
        g(s, newcode=bv(a[1], 32))
        return Outs([(s, Ret(None)), xthrow(E, b, BADALLOC, 'oom')])
    handler(E, r'^LibWinptyException::LibWinptyException\(unsigned long, wchar_t const\*\)', lib, 'LibWinptyException(code, message) (unit exceptions)')

    def winpty(E, s, a, ci):
        msg_ok(E, s, a[0])
        b = s.copy()
        return Outs([xthrow(E, s, WINEXC, 'unspecified'), xthrow(E, b, BADALLOC, 'oom')])

    def windows(E, s, a, ci):
        b = s.copy()
        return Outs([xthrow(E, s, WINEXC, 'unspecified'), xthrow(E, b, BADALLOC, 'oom')])
    handler(E, r'^throwWinptyException\(', winpty, 'throwWinptyException throws a WinptyException with that message (unit exceptions)')
    handler(E, r'^throwWindowsError\(', windows, 'throwWindowsError throws a WinptyException with the error code as text (unit exceptions)')

    def cxa(E, s, a, ci):
        from std import h_cxa_throw
        t = h_cxa_throw(E, s, a, ci)
        g(s, exc=s.ghost.get('newcode') if t.ti == LIBEXC else 'other')
        return t
    handler(E, r'^__cxa_throw$', cxa, 'Itanium C++ exception ABI')


def msg_ok(E, s, p):
    """the message is not empty"""
    if isinstance(p, Ptr) and p.oid != 0:
        E.oblige(s, bv(E.load_raw(s, p, 2, None), 16) != 0, 'precondition', 'an error has a message')


def session(ctx, extra=(), pipe=True):
    """a session: its pipe (open, unless pipe is False), event and agent process"""
    E = ctx.mk([WP, TU_MSG] + list(extra))
    st = State()
    W = new_object(E, st, 'winpty_s', 'wp')
    g(st, pend=False, cancelled=False, lasterr=z3.BitVec('err0', 32), exc=None, newcode=None, locked=False, closed=(), log=())
    for h in (H_PIPE, H_AGENT, H_EVENT):
        st.assume(z3.And(h != 0, h != INV))
    st.assume(z3.Distinct(H_PIPE, H_AGENT, H_EVENT))
    OHV = lambda m: View(E, 'OwnedHandle', W.p(m))
    E.oh = {m: OHV(m) for m in ('controlPipe', 'agentProcess', 'ioEvent')}
    E.oh['controlPipe'].set(st, 'm_h', Ptr(0, H_PIPE) if pipe else Ptr(0, 0))
    E.oh['agentProcess'].set(st, 'm_h', Ptr(0, H_AGENT))
    E.oh['ioEvent'].set(st, 'm_h', Ptr(0, H_EVENT))
    install_win(E)
    return E, st, W


def oh_close(E):
    def dispose(E, s, a, ci):
        V = View(E, 'OwnedHandle', a[0])
        h = V.get(s, 'm_h', True)
        v = hv(h)
        out = []
        for s2, live in E.fork(s, z3.And(v != 0, v != INV)):
            if live:
                g(s2, closed=s2.ghost['closed'] + (v,))
            V.set(s2, 'm_h', Ptr(0, 0))
            out.append((s2, Ret(1)))
        return Outs(out)
    handler(E, r'^OwnedHandle::dispose\(', dispose, 'OwnedHandle::dispose closes the handle, if any, and empties the owner (property H01)')


def install_win(E):
    install_exc(E)
    oh_close(E)

    def clob(s):
        g(s, lasterr=fresh('lasterr', 32))
    handler(E, r'^GetLastError$', lambda E, s, a, ci: s.ghost['lasterr'], 'GetLastError: of the last failing call')
    handler(E, r'^trace\(', lambda E, s, a, ci: None, 'trace: no effect on program state or the last error, throws nothing (its first use decides whether tracing is on)')
    handler(E, r'^(assertTrace)\(', lambda E, s, a, ci: None, False)

    def enter(E, s, a, ci):
        E.oblige(s, not s.ghost['locked'], 'precondition', 'the session lock is taken once')
        g(s, locked=True)

    def leave(E, s, a, ci):
        E.oblige(s, s.ghost['locked'], 'precondition', 'the session lock is held when released')
        g(s, locked=False)
        if E.at_unlock:
            E.at_unlock(E, s)
    E.at_unlock = None
    handler(E, r'^EnterCriticalSection$', enter, 'EnterCriticalSection')
    handler(E, r'^LeaveCriticalSection$', leave, 'LeaveCriticalSection')


def nonblock(E, s, h, what):
    E.oblige(s, hv(h) == H_PIPE, 'precondition', what + ' on the control pipe')


def h_wait(W):
    def wait(E, s, a, ci):
        E.oblige(s, s.ghost['pend'], 'precondition', 'waits only while an operation is pending')
        E.oblige(s, bv(a[0], 32) == 2, 'precondition', 'two handles are waited for')
        E.oblige(s, hv(E.load_raw(s, a[1], 8, ('ptr',))) == H_EVENT, 'precondition', 'the completion event comes first')
        E.oblige(s, hv(E.load_raw(s, padd(a[1], 8), 8, ('ptr',))) == H_AGENT, 'precondition', 'the end of the agent is waited for as well')
        E.oblige(s, bv(a[2], 32) == 0, 'precondition', 'either event ends the wait')
        E.oblige(s, bv(a[3], 32) == bv(W.get(s, 'agentTimeoutMs'), 32), 'precondition', 'the wait is limited by the configured time')
        out = []
        for v in (0, 1, 258, 0xFFFFFFFF):
            b = s.copy()
            g(b, waitret=v)
            if v == 0xFFFFFFFF:
                g(b, lasterr=fresh('lasterr', 32))
            out.append((b, Ret(v)))
        return Outs(out)
    return wait


def install_pending(E, W):
    handler(E, r'^WaitForMultipleObjects$', h_wait(W), 'WaitForMultipleObjects: one of the two handles, time-out, or failure')

    def cancel(E, s, a, ci):
        nonblock(E, s, a[0], 'CancelIo')
        g(s, cancelled=True)
        return fresh('ok', 32)
    handler(E, r'^CancelIo$', cancel, 'CancelIo: may or may not cancel')

    def result(E, s, a, ci):
        nonblock(E, s, a[0], 'GetOverlappedResult')
        E.oblige(s, s.ghost['pend'], 'precondition', 'the result of an operation is fetched once')
        E.oblige(s, bv(a[3], 32) != 0, 'precondition', 'waits until the operation has ended')
        ok, n, e = fresh('ok', 32), fresh('actual', 32), fresh('lasterr', 32)
        E.store_raw(s, a[2], n, 4)
        if not s.ghost['cancelled']:
            E.oblige(s, s.ghost.get('waitret') == 0, 'precondition', 'an operation that has not completed is cancelled first')
        s.assume(z3.ULE(n, z3.Extract(31, 0, s.ghost.get('iolen', w64(0)))))
        g(s, pend=False, lasterr=e, done=(ok, n, e))
        return ok
    handler(E, r'^GetOverlappedResult$', result, 'GetOverlappedResult: waits for the operation; its outcome')


def exc_of(E, s, o):
    return s.ghost.get('exc')


HP = r'^handlePendingIo\(winpty_s&, _OVERLAPPED&, int&, unsigned long&, unsigned long&\)'
HRW = r'^handleReadWriteErrors\('


def unit_pending(ctx):
    """handlePendingIo: a started operation has always ended when it returns or throws"""
    for first in (True, False):
        E, st, W = session(ctx)
        install_pending(E, W)
        ok, err, act = (E.new_cells(st, 4, n) for n in ('success', 'lastError', 'actual'))
        over = E.new_cells(st, 32, 'over')
        ok0, err0, act0 = (z3.BitVec(n, 32) for n in ('ok0', 'err0', 'act0'))
        if first:
            st.assume(z3.And(ok0 == 0, err0 == IO_PENDING))
        else:
            st.assume(z3.Not(z3.And(ok0 == 0, err0 == IO_PENDING)))
        g(st, pend=first, iolen=z3.BitVec('iolen', 64))
        for p, v in ((ok, ok0), (err, err0), (act, act0)):
            E.store_raw(st, p, v, 4)
        E.targets.append('handlePendingIo')
        val = lambda s, p: bv(E.load_raw(s, p, 4, None), 32)
        for s, o in E.exec_fn(st, E.find_fn(HP), [W.ptr, over, ok, err, act]):
            E.oblige(s, not s.ghost['pend'], 'postcondition', 'no operation is pending any more')
            if isinstance(o, Throw):
                E.oblige(s, first, 'postcondition', 'fails only while waiting')
                E.oblige(s, s.ghost['cancelled'], 'postcondition', 'an unfinished operation is cancelled')
                x, w = s.ghost['exc'], s.ghost.get('waitret')
                want = {1: ERR['DIED'], 258: ERR['TIMEOUT']}.get(w)
                E.oblige(s, isinstance(x, str) and (x == 'oom' or w == 0xFFFFFFFF) if isinstance(x, str) else (x == w32(want) if want is not None else False), 'postcondition', 'the failure says what happened: agent ended, time-out or error')
            elif isinstance(o, Ret):
                if not first:
                    E.oblige(s, z3.And(val(s, ok) == ok0, val(s, err) == err0, val(s, act) == act0), 'postcondition', 'a finished operation is left alone')
                else:
                    E.oblige(s, s.ghost.get('waitret') == 0, 'postcondition', 'succeeds only if the operation completed')
                    d = s.ghost.get('done')
                    E.oblige(s, d is not None and z3.And(val(s, ok) == d[0], val(s, act) == d[1], val(s, err) == d[2]), 'postcondition', 'the outcome of the operation is reported')


def unit_errors(ctx):
    E, st, W = session(ctx)
    ok, e = z3.BitVec('ok', 32), z3.BitVec('e', 32)
    msg = E.new_arr(st, 2, {0: 2}, 64, 'msg', {0: FArr.base(16, 'msg')})
    st.assume(bv(E.load_raw(st, msg, 2, None), 16) != 0)
    E.targets.append('handleReadWriteErrors')
    for s, o in E.exec_fn(st, E.find_fn(HRW), [W.ptr, ok, e, msg]):
        if isinstance(o, Throw):
            E.oblige(s, ok == 0, 'postcondition', 'only a failure is reported')
            x = s.ghost['exc']
            lost = z3.Or(e == 109, e == 232, e == 233)
            E.oblige(s, True if isinstance(x, str) and x == 'oom' else (z3.Not(lost) if isinstance(x, str) else z3.And(x == ERR['LOST'], lost)), 'postcondition', 'a broken connection is told from other errors')
        elif isinstance(o, Ret):
            E.oblige(s, ok != 0, 'postcondition', 'every failure is reported')


def c_pending(E, s, a, ci):
    """contract of handlePendingIo"""
    ld = lambda p: bv(E.load_raw(s, p, 4, None), 32)
    ok, err = ld(a[2]), ld(a[3])
    out = []
    for s2, pend in E.fork(s, z3.And(ok == 0, err == IO_PENDING)):
        if not pend:
            out.append((s2, Ret(None)))
            continue
        E.oblige(s2, s2.ghost['pend'], 'precondition', 'an operation was started')
        for code in (w32(ERR['DIED']), w32(ERR['TIMEOUT']), 'unspecified'):
            b = s2.copy()
            g(b, pend=False)
            out.append(xthrow(E, b, WINEXC if isinstance(code, str) else LIBEXC, code))
        n, o2 = fresh('actual', 32), fresh('ok', 32)
        s2.assume(z3.ULE(n, z3.Extract(31, 0, s2.ghost['iolen'])))
        if s2.ghost.get('iowrite'):
            s2.assume(z3.Implies(o2 != 0, n == z3.Extract(31, 0, s2.ghost['iolen'])))
        g(s2, pend=False)
        E.store_raw(s2, a[2], o2, 4)
        e2 = fresh('lasterr', 32)
        E.store_raw(s2, a[3], e2, 4)
        E.store_raw(s2, a[4], n, 4)
        g(s2, iodone=(o2, n, e2))
        out.append((s2, Ret(None)))
    return Outs(out)


def c_errors(E, s, a, ci):
    out = []
    for s2, ok in E.fork(s, bv(a[1], 32) != 0):
        if ok:
            out.append((s2, Ret(None)))
        else:
            b = s2.copy()
            out += [xthrow(E, s2, LIBEXC, w32(ERR['LOST'])), xthrow(E, b, WINEXC, 'unspecified')]
    return Outs(out)


def io_contracts(E, W):
    install_pending(E, W)
    opt(E, HP, c_pending, 'handlePendingIo (unit handlePendingIo)')
    opt(E, HRW, c_errors, 'handleReadWriteErrors (unit handleReadWriteErrors)')


def start_io(E, s, a, n, over, act, write):
    """an overlapped operation: done at once, failed, or pending"""
    E.oblige(s, not s.ghost['pend'], 'precondition', 'one operation at a time')
    nonblock(E, s, a, 'I/O')
    E.oblige(s, hv(E.load_raw(s, padd(over, 24), 8, ('ptr',))) == H_EVENT, 'precondition', 'the operation signals the session\'s event')
    E.oblige(s, z3.And(*[bv(E.load_raw(s, padd(over, i), 8, None), 64) == 0 for i in (0, 8, 16)]), 'precondition', 'the operation block is cleared')
    g(s, iolen=n, iowrite=write)
    p, f = s.copy(), s.copy()
    m = fresh('actual', 32)
    s.assume(z3.ULE(m, z3.Extract(31, 0, n)))
    E.store_raw(s, act, m, 4)
    ok = fresh('ok', 32)
    s.assume(ok != 0)
    if write:
        s.assume(m == z3.Extract(31, 0, n))     # a blocking-mode pipe takes everything
    g(s, iodone=(ok, m, w32(0)))
    g(p, pend=True, lasterr=w32(IO_PENDING))
    fe = fresh('lasterr', 32)
    f.assume(fe != IO_PENDING)
    g(f, lasterr=fe, iodone=(w32(0), w32(0), fe))
    return [(s, Ret(ok)), (p, Ret(0)), (f, Ret(0))]


def unit_write_data(ctx):
    """writeData: one write of everything, ended when it returns or throws"""
    E, st, W = session(ctx)
    misuse(E, lambda s: z3.BoolVal(False))
    io_contracts(E, W)
    n = z3.BitVec('amount', 64)
    st.assume(z3.ULE(n, 1 << 31))
    data = E.new_arr(st, 1, {0: 1}, n, 'data', {0: FArr.base(8, 'data')})

    def wr(E, s, a, ci):
        E.oblige(s, s.ghost['log'] == (), 'precondition', 'a single write')
        E.oblige(s, isinstance(a[1], Ptr) and a[1].oid == data.oid and bv(a[1].off, 64) == 0, 'precondition', 'the data given')
        E.oblige(s, z3.ZeroExt(32, bv(a[2], 32)) == n, 'precondition', 'all of it')
        g(s, log=('write',))
        return Outs(start_io(E, s, a[0], z3.ZeroExt(32, bv(a[2], 32)), a[4], a[3], True))
    handler(E, r'^WriteFile$', wr, 'WriteFile: completes, fails or is pending')
    E.targets.append('writeData')
    for s, o in E.exec_fn(st, E.find_fn(r'^writeData\('), [W.ptr, data, n]):
        E.oblige(s, not s.ghost['pend'], 'postcondition', 'no operation is pending any more')
        if isinstance(o, Ret):
            d = s.ghost.get('iodone')
            E.oblige(s, d is not None and z3.And(d[0] != 0, z3.ZeroExt(32, d[1]) == n), 'postcondition', 'everything was written')


def unit_read_data(ctx):
    E, st, W = session(ctx)
    io_contracts(E, W)
    n = z3.BitVec('amount', 64)
    st.assume(z3.And(z3.ULE(n, 1 << 31), z3.UGT(n, 0)))
    data = E.new_arr(st, 1, {0: 1}, n, 'data', {0: FArr.base(8, 'data')})

    def rd(E, s, a, ci):
        E.oblige(s, s.ghost['log'] == (), 'precondition', 'a single read')
        E.oblige(s, isinstance(a[1], Ptr) and a[1].oid == data.oid and bv(a[1].off, 64) == 0, 'precondition', 'into the buffer given')
        E.oblige(s, z3.ULE(z3.ZeroExt(32, bv(a[2], 32)), n), 'precondition', 'no more than it holds')
        g(s, log=('read',))
        return Outs(start_io(E, s, a[0], z3.ZeroExt(32, bv(a[2], 32)), a[4], a[3], False))
    handler(E, r'^ReadFile$', rd, 'ReadFile: completes, fails or is pending')
    E.targets.append('readData')
    for s, o in E.exec_fn(st, E.find_fn(r'^readData\('), [W.ptr, data, n]):
        E.oblige(s, not s.ghost['pend'], 'postcondition', 'no operation is pending any more')
        if isinstance(o, Ret):
            d = s.ghost.get('iodone')
            E.oblige(s, d is not None and z3.And(d[0] != 0, z3.ZeroExt(32, d[1]) == bv(o.v, 64)), 'postcondition', 'the number of bytes read is returned')


def unit_connect(ctx):
    E, st, W = session(ctx)
    io_contracts(E, W)

    def con(E, s, a, ci):
        nonblock(E, s, a[0], 'ConnectNamedPipe')
        E.oblige(s, hv(E.load_raw(s, padd(a[1], 24), 8, ('ptr',))) == H_EVENT, 'precondition', 'the operation signals the session\'s event')
        g(s, iolen=w64(0))
        p, f = s.copy(), s.copy()
        g(p, pend=True, lasterr=w32(IO_PENDING))
        fe = fresh('lasterr', 32)
        f.assume(fe != IO_PENDING)
        ok = fresh('ok', 32)
        s.assume(ok != 0)
        g(s, iodone=(ok, w32(0), w32(0)))
        g(f, lasterr=fe, iodone=(w32(0), w32(0), fe))
        return Outs([(s, Ret(ok)), (p, Ret(0)), (f, Ret(0))])
    handler(E, r'^ConnectNamedPipe$', con, 'ConnectNamedPipe: connected, failed or pending')
    E.targets.append('connectControlPipe')
    for s, o in E.exec_fn(st, E.find_fn(r'^connectControlPipe\('), [W.ptr]):
        E.oblige(s, not s.ghost['pend'], 'postcondition', 'no operation is pending any more')
        d = s.ghost.get('iodone')
        if isinstance(o, Ret):
            E.oblige(s, d is not None and z3.Or(d[0] != 0, d[2] == 535), 'postcondition', 'returns only when the agent is connected')


def stream(E, st):
    """the bytes the agent sends: S, of which pos were taken so far"""
    g(st, pos=w64(0))
    return FArr.base(8, 'stream')


def le64(S, p):
    return z3.Concat(*[bv(S.read(p + j), 8) for j in reversed(range(8))])


def c_read_data(S):
    def f(E, s, a, ci):
        n = bv(a[2], 64)
        E.oblige(s, n != 0, 'precondition', 'something is to be read')
        E.inb_sym(s, E.getobj(s, a[1], 'write'), a[1].off, a[2], 'write')
        b, b2 = s.copy(), s.copy()
        m, pos = fresh('chunk', 64), s.ghost['pos']
        s.assume(z3.ULE(m, n))
        w = E.wobj(s, a[1])
        if w.kind == 'cells':
            raise Unsupported('reads into a plain variable')
        fl = w.fields[0]
        w.fields = dict(w.fields)
        w.fields[0] = (fl[0], fl[1].copy(divmod_lin(a[1].off, 1)[0], m, S, pos))
        g(s, pos=pos + m)
        return Outs([(s, Ret(m)), xthrow(E, b, LIBEXC, w32(ERR['LOST'])), xthrow(E, b2, WINEXC, 'unspecified')])
    return f


def c_read_all(S):
    def f(E, s, a, ci):
        n = bv(a[2], 64)
        b = s.copy()
        o = E.getobj(s, a[1], 'write')
        pos = s.ghost['pos']
        if not E.must(s, n == 0):
            E.inb_sym(s, o, a[1].off, a[2], 'write')
            w = E.wobj(s, a[1])
            if w.kind == 'cells':
                if not E.must(s, n == 8):
                    raise Unsupported('reads into a plain variable')
                E.store_raw(s, a[1], le64(S, pos), 8)
            else:
                fl = w.fields[0]
                w.fields = dict(w.fields)
                w.fields[0] = (fl[0], fl[1].copy(divmod_lin(a[1].off, 1)[0], n, S, pos))
        g(s, pos=pos + n)
        g(b, pos=fresh('pos', 64), bad=True)
        return Outs([(s, Ret(None)), xthrow(E, b, LIBEXC, w32(ERR['LOST']))])
    return f


def unit_read_all(ctx):
    """readAll: exactly the next bytes of the reply stream, in order"""
    E, st, W = session(ctx)
    S = stream(E, st)
    n = z3.BitVec('amount', 64)
    st.assume(z3.ULE(n, 1 << 40))
    B0 = FArr.base(8, 'buf0')
    buf = E.new_arr(st, 1, {0: 1}, n, 'buf', {0: B0})
    E.inputs['amount'] = n
    contract(E, r'^readData\(', c_read_data(S), 'readData: at most that many of the next bytes (unit readData)')
    cur = lambda c: E.load_raw(c.st, c.slot('data'), 8, ('ptr',))
    at = lambda s, q: bv(s.mem[buf.oid].fields[0][1].read(q), 8)
    E.loops = [LoopSpec('read', lambda c: [('progress', z3.And(bv(c['amount'], 64) == n - c.st.ghost['pos'], z3.ULE(c.st.ghost['pos'], n))),
                                           ('next byte', bv(cur(c).off, 64) == c.st.ghost['pos']),
                                           ('the bytes so far', z3.Implies(z3.ULT(k, c.st.ghost['pos']), at(c.st, k) == bv(S.read(k), 8)))], fn=r'^readAll', vars={'amount': ('i', 64)})]
    E.targets.append('readAll')
    for s, o in E.exec_fn(st, E.find_fn(r'^readAll\('), [W.ptr, buf, n]):
        if isinstance(o, Ret):
            E.oblige(s, s.ghost['pos'] == n, 'postcondition', 'exactly that many bytes are taken from the reply stream')
            E.oblige(s, z3.Implies(z3.ULT(k, n), at(s, k) == bv(S.read(k), 8)), 'postcondition', 'in order, unchanged')


def lenerr(E):
    def vec(E, s, a, ci):
        from std import h_vec
        out = []
        for s2, big in E.fork(s, z3.UGT(bv(a[1], 64), 1 << 40)):
            b = s2.copy()
            g(b, bad=True)
            out.append(xthrow(E, b, '@_ZTISt12length_error' if big else BADALLOC, 'other' if big else 'oom'))
            if not big:
                h_vec(E, s2, a, ci)
                out.append((s2, Ret(None)))
        return Outs(out)
    handler(E, r'^vector<char>::vector\(unsigned long long', vec, 'libstdc++ std::vector: an impossible size throws')


def unit_read_packet(ctx):
    """readPacket: one reply, exactly its bytes"""
    E, st, W = session(ctx)
    S = stream(E, st)
    g(st, bad=False)
    contract(E, r'^readAll\(', c_read_all(S), 'readAll: exactly the next bytes, or it fails (unit readAll)')
    lenerr(E)
    r = E.new_cells(st, class_size(E, 'ReadBuffer'), 'ret')
    E.targets += ['readPacket', 'readUInt64']
    total = le64(S, w64(0))
    E.inputs['announced length'] = total
    for s, o in E.exec_fn(st, E.find_fn(r'^readPacket\('), [r, W.ptr]):
        if isinstance(o, Ret):
            R = View(E, 'ReadBuffer', r)
            sq = R.seq(s, 'm_buf')
            f = farrs_of(E, s, sq)[0]
            E.oblige(s, z3.UGE(total, 8), 'postcondition', 'a reply shorter than its length field is refused')
            E.oblige(s, s.ghost['pos'] == total, 'postcondition', 'exactly one reply is taken')
            E.oblige(s, z3.And(bv(sq.len, 64) == total - 8, bv(R.get(s, 'm_off'), 64) == 0), 'postcondition', 'the payload is what follows the length')
            E.oblige(s, z3.Implies(z3.ULT(k, bv(sq.len, 64)), bv(f.read(k), 8) == bv(S.read(k + 8), 8)), 'postcondition', 'unchanged')
        elif isinstance(o, Throw):
            E.oblige(s, z3.Or(z3.BoolVal(bool(s.ghost['bad'])), z3.ULT(total, 8)) if not is_sym(s.ghost['bad']) else z3.Or(s.ghost['bad'], z3.ULT(total, 8)), 'postcondition', 'fails only for a malformed length, a failing read or lack of memory')


def unit_write_packet(ctx):
    """writePacket, newPacket: one length-prefixed request"""
    E, st, W = session(ctx, [BUF])
    n = z3.BitVec('n', 64)
    st.assume(z3.And(z3.UGE(n, 8), z3.ULE(n, 1 << 31)))
    P = new_object(E, st, 'WriteBuffer', 'packet')
    body = FArr.base(8, 'body')
    seq_put(E, st, P.p('m_buf'), new_seq(E, st, 'char', n, {0: body}, name='packet'))

    def wr(E, s, a, ci):
        E.oblige(s, s.ghost['log'] == (), 'precondition', 'one write')
        E.oblige(s, a[0].oid == W.ptr.oid, 'precondition', 'to this session')
        E.oblige(s, bv(a[2], 64) == n, 'precondition', 'the whole packet is sent')
        src, i0 = src_range(E, s, a[1], a[2], 1)
        E.oblige(s, z3.Concat(*[bv(src.read(add64(i0, j)), 8) for j in reversed(range(8))]) == n, 'precondition', 'the packet starts with its length')
        E.oblige(s, z3.Implies(z3.And(z3.UGE(k, 8), z3.ULT(k, n)), bv(src.read(add64(i0, k)), 8) == bv(body.read(k), 8)), 'precondition', 'the values follow unchanged')
        g(s, log=('write',))
        b = s.copy()
        return Outs([(s, Ret(None)), xthrow(E, b, LIBEXC, w32(ERR['LOST']))])
    contract(E, r'^writeData\(', wr, 'writeData: writes all of it (unit writeData)')
    E.targets += ['writePacket', 'newPacket']
    for s, o in E.exec_fn(st, E.find_fn(r'^writePacket\('), [W.ptr, P.ptr]):
        E.oblige(s, s.ghost['log'] == ('write',), 'postcondition', 'one packet is sent')
    E, st, W = session(ctx)
    install_write(E)
    r = E.new_cells(st, class_size(E, 'WriteBuffer'), 'ret')
    for s, o in E.exec_fn(st, E.find_fn(r'newPacket\(\)$'), [r]):
        E.oblige(s, kinds(items(s, r)) == ['raw64'], 'postcondition', 'a packet starts with room for its length')


def rpc_session(ctx, open_=True):
    """a session whose requests and replies are typed messages; the API function is real"""
    E, st, W = session(ctx, pipe=open_)
    en = enums(E)
    install_write(E)
    g(st, nw=0, nr=0, sent=(), rd=(), bad=False, eof=False, translated=None, unlocked=0)

    def alive(E, s, what):
        E.oblige(s, hv(E.oh['controlPipe'].get(s, 'm_h', True)) == H_PIPE, 'precondition', what + ' only while the connection is open')
        E.oblige(s, s.ghost['locked'], 'precondition', what + ' only under the session lock')

    def wp(E, s, a, ci):
        alive(E, s, 'a request is sent')
        E.oblige(s, a[0].oid == W.ptr.oid, 'precondition', 'on this session')
        E.oblige(s, s.ghost['nw'] == 0, 'precondition', 'one request per call')
        g(s, nw=s.ghost['nw'] + 1, sent=items(s, a[1]))
        b = s.copy()
        g(b, bad=True)
        return Outs([(s, Ret(None)), xthrow(E, b, LIBEXC, w32(ERR['LOST']))])
    contract(E, r'^writePacket\(', wp, 'writePacket: one request (unit writePacket)')

    def rp(E, s, a, ci):
        alive(E, s, 'a reply is read')
        E.oblige(s, s.ghost['nw'] == 1 and s.ghost['nr'] == 0, 'precondition', 'one reply is read for the request')
        g(s, nr=s.ghost['nr'] + 1)
        b = s.copy()
        g(b, bad=True)
        return Outs([(s, Ret(None)), xthrow(E, b, LIBEXC, w32(ERR['TIMEOUT']))])
    contract(E, r'^readPacket\(', rp, 'readPacket: one reply (unit readPacket)')

    def unlock(E, s):
        h = hv(E.oh['controlPipe'].get(s, 'm_h', True))
        done = s.ghost['nw'] == 1 and s.ghost['nr'] == 1
        idle = s.ghost['nw'] == 0
        ok = z3.BoolVal(idle) if idle else z3.And(z3.BoolVal(done), s.ghost['eof'] if is_sym(s.ghost['eof']) else z3.BoolVal(bool(s.ghost['eof'])))
        E.oblige(s, z3.Or(h == 0, ok), 'invariant', 'when the session is released, its connection is in step or closed')
        g(s, unlocked=s.ghost['unlocked'] + 1)
    E.at_unlock = unlock
    handler(E, r'^ReadBuffer::~ReadBuffer', lambda E, s, a, ci: None, RB_NOTE)
    handler(E, r'^ReadBuffer::ReadBuffer\(ReadBuffer&&\)', lambda E, s, a, ci: None, RB_NOTE)
    return E, st, W, en


def api_err(E, st, given=True):
    """the caller's error pointer (or none), holding anything"""
    if not given:
        return Ptr(0, 0)
    p = E.new_cells(st, 8, 'errp')
    E.store_raw(st, p, Ptr(0, z3.BitVec('stale', 64)), 8)
    return p


def install_translate(E):
    """contract of translateException (unit translateException, property L02)"""
    def tr(E, s, a, ci):
        e = E.load_raw(s, a[0], 8, ('ptr',))
        E.oblige(s, bool(s.ghost.get('%caught')), 'precondition', 'an exception is being handled')
        x = s.ghost['exc']
        g(s, translated=('exc', x))
        if e.oid != 0:
            o = E.new_cells(s, 24, 'error')
            g(s, errobj=o.oid)
            E.store_raw(s, e, o, 8)
        return None
    contract(E, r'^translateException\(', tr, 'translateException: stores an error object that has a code and a message, throws nothing (property L02)')


def api_end(E, s, o, err, ok, what=''):
    """common to all API calls: nothing escapes; failure and error object go together"""
    if isinstance(o, Throw):
        E.oblige(s, False, 'exception', 'no exception leaves the API')
        return False
    if not isinstance(o, Ret):
        return False
    E.oblige(s, not s.ghost['locked'], 'postcondition', 'the session lock is released')
    t = s.ghost['translated']
    if err.oid:
        e = E.load_raw(s, err, 8, ('ptr',))
        E.oblige(s, (e.oid == s.ghost.get('errobj', -1)) if t else (e.oid == 0 and hv(e) == 0), 'postcondition', 'the error object is set exactly on failure')
    if ok is not None:
        E.oblige(s, ok == z3.BoolVal(t is None) if is_sym(ok) else bool(ok) == (t is None), 'postcondition', 'the returned value says whether the call failed')
    return True


def pipe_now(E, s):
    return hv(E.oh['controlPipe'].get(s, 'm_h', True))


def dead_session(E, s):
    """what every call must do once the connection is closed"""
    E.oblige(s, s.ghost['nw'] == 0 and s.ghost['nr'] == 0, 'postcondition', 'nothing is sent or read on a closed connection')
    E.oblige(s, s.ghost['translated'] is not None, 'postcondition', 'a call on a closed connection fails')
    E.oblige(s, pipe_now(E, s) == 0, 'frame', 'a closed connection stays closed')


def words(E, st):
    """a reply made of R 32-bit values, read one by one (well-formed replies end exactly where they should)"""
    R, V = z3.BitVec('replied', 64), FArr.base(32, 'value')
    g(st, nread=w64(0))

    def g32(E, s, a, ci):
        out = []
        for s2, more in E.fork(s, z3.ULT(s.ghost['nread'], R)):
            if more:
                v = bv(V.read(s2.ghost['nread']), 32)
                g(s2, nread=s2.ghost['nread'] + 1)
                out.append((s2, Ret(v)))
            else:
                g(s2, exc='decode', bad2=True)
                out.append((s2, decode_error(E, s2)))
        return Outs(out)

    def eof(E, s, a, ci):
        out = []
        for s2, e in E.fork(s, s.ghost['nread'] == R):
            if e:
                g(s2, eof=True)
                out.append((s2, Ret(None)))
            else:
                g(s2, exc='decode')
                out.append((s2, decode_error(E, s2)))
        return Outs(out)
    handler(E, r'^ReadBuffer::getInt32\(', g32, RB_NOTE)
    handler(E, r'^ReadBuffer::assertEof\(', eof, RB_NOTE)
    return R, V


def unit_set_size(ctx):
    """winpty_set_size: one request, one empty reply"""
    for open_ in (True, False):
        for given in (True, False):
            E, st, W, en = rpc_session(ctx, open_)
            install_translate(E)
            R, V = words(E, st)
            c, r = z3.BitVec('cols', 32), z3.BitVec('rows', 32)
            E.inputs.update(cols=c, rows=r, replied=R)
            g(st, abort=False)
            st.assume(z3.ULE(R, 1 << 32))
            misuse(E, lambda s: z3.Or(c <= 0, r <= 0))
            err = api_err(E, st, given)
            E.targets.append('winpty_set_size')
            for s, o in E.exec_fn(st, E.find_fn(r'^winpty_set_size$'), [W.ptr, c, r, err]):
                if not api_end(E, s, o, err, bv(o.v, 32) != 0 if isinstance(o, Ret) else None):
                    continue
                E.oblige(s, z3.And(c > 0, r > 0), 'postcondition', 'an impossible size is refused')
                if not open_:
                    dead_session(E, s)
                    continue
                t = s.ghost['translated']
                if s.ghost['nw']:
                    it = s.ghost['sent']
                    if ob_kinds(E, s, it, ['raw64'] + PROTO['SetSize'], 'the request is well-formed'):
                        E.oblige(s, z3.And(it[1][1] == en['SetSize'], it[2][1] == c, it[3][1] == r), 'postcondition', 'the size is sent unchanged')
                if t is None:
                    E.oblige(s, s.ghost['nw'] == 1 and s.ghost['nr'] == 1, 'postcondition', 'success means a request and its reply')
                    E.oblige(s, R == 0, 'postcondition', 'an unexpected reply is a failure')
                    E.oblige(s, pipe_now(E, s) == H_PIPE, 'postcondition', 'the connection stays open after a success')
                else:
                    E.oblige(s, z3.Or(z3.BoolVal(bool(s.ghost['bad'])), R != 0), 'postcondition', 'a correct reply is a success')
                    E.oblige(s, pipe_now(E, s) == 0, 'postcondition', 'a failure closes the connection')
                    E.oblige(s, len(s.ghost['closed']) == 1, 'postcondition', 'once')


def misuse(E, cond):
    """an ASSERT may fail only for calls the API forbids"""
    def die(E, s, a, ci):
        E.oblige(s, cond(s), 'assertion', 'only a forbidden call is refused by ending the process')
        return NoReturn()
    handler(E, r'^_?_?w?assert$|^_wassert$|^abort$', die, 'a failed ASSERT ends the process')


def unit_process_list(ctx):
    """winpty_get_console_process_list: the list if it fits, else its size; the session survives"""
    for open_ in (True, False):
        E, st, W, en = rpc_session(ctx, open_)
        install_translate(E)
        R, V = words(E, st)
        E.inputs['values in the reply'] = R
        st.assume(z3.ULE(R, 1 << 32))
        n = z3.BitVec('processCount', 32)
        E.inputs['processCount'] = n
        cap = z3.If(n > 0, z3.ZeroExt(32, n), w64(0))
        L0 = FArr.base(32, 'list0')
        lst = E.new_arr(st, 4, {0: 4}, cap, 'processList', {0: L0})
        misuse(E, lambda s: z3.BoolVal(False))
        err = api_err(E, st)
        v0 = bv(V.read(w64(0)), 32)
        E.inputs['announced count'] = v0
        at = lambda s: bv(s.mem[lst.oid].fields[0][1].read(k), 32)
        want = lambda s, got: z3.If(z3.And(v0 <= n, z3.ULT(k, got)), bv(V.read(k + 1), 32), bv(L0.read(k), 32))
        E.loops = [LoopSpec('pids', lambda c: [('one value per turn', z3.And(c.st.ghost['nread'] == z3.ZeroExt(32, bv(c['i'], 32)) + 1, bv(c['i'], 32) >= 0, bv(c['i'], 32) <= v0)),
                                               ('within the reply', z3.ULE(c.st.ghost['nread'], R)),
                                               ('the list so far', at(c.st) == want(c.st, c.st.ghost['nread'] - 1))], fn=r'winpty_get_console_process_list', vars={'i': ('i', 32)},
                            decreases=lambda c: v0 - bv(c['i'], 32))]
        E.targets.append('winpty_get_console_process_list')
        for s, o in E.exec_fn(st, E.find_fn(r'^winpty_get_console_process_list$'), [W.ptr, lst, n, err]):
            t = s.ghost['translated']
            if not api_end(E, s, o, err, None):
                continue
            if not open_:
                dead_session(E, s)
                continue
            wf = z3.And(z3.UGE(R, 1), v0 >= 0, R == z3.ZeroExt(32, v0) + 1)
            if s.ghost['nw']:
                it = s.ghost['sent']
                if ob_kinds(E, s, it, ['raw64'] + PROTO['GetConsoleProcessList'], 'the request is well-formed'):
                    E.oblige(s, it[1][1] == en['GetConsoleProcessList'], 'postcondition', 'the request asks for the list')
            if t is None:
                E.oblige(s, wf, 'postcondition', 'a malformed reply is a failure')
                E.oblige(s, bv(o.v, 32) == v0, 'postcondition', 'the number of processes is returned')
                E.oblige(s, pipe_now(E, s) == H_PIPE, 'postcondition', 'the session stays usable')
                E.oblige(s, z3.Implies(z3.ULT(k, cap), at(s) == want(s, z3.ZeroExt(32, v0))), 'postcondition', 'the list is stored if it fits, otherwise the array is left alone')
            else:
                E.oblige(s, z3.Or(z3.BoolVal(bool(s.ghost['bad'])), z3.Not(wf)), 'postcondition', 'a correct reply is a success, whatever the size of the array')
                E.oblige(s, bv(o.v, 32) == 0, 'postcondition', 'a failure returns zero')
                E.oblige(s, pipe_now(E, s) == 0, 'postcondition', 'a failure closes the connection')


def wmember(E, st, V, name, lim=1 << 30):
    """a string member with arbitrary content"""
    n = z3.BitVec(name + '.len', 64)
    st.assume(z3.ULE(n, lim))
    f = FArr.base(16, name)
    q = new_seq(E, st, 'wchar_t', n, {0: f.set(n, 0)}, isstr=True, name=name)
    seq_put(E, st, V.p(name), q)
    return n, f


def unit_spawn(ctx):
    """winpty_spawn: the request carries the configuration; handles or an error code, never both"""
    for open_, wp_, wt, we, wx in ((True, 1, 1, 1, 1), (True, 1, 0, 1, 1), (True, 0, 1, 0, 1), (True, 0, 0, 1, 0), (False, 1, 1, 1, 1)):
        E, st, W, en = rpc_session(ctx, open_)
        install_translate(E)
        install_read(E)

        def eof(E, s, a, ci):
            b = s.copy()
            g(b, bad=True)
            g(s, eof=True, rd=s.ghost['rd'] + (('eof',),))
            return Outs([(s, Ret(None)), (b, decode_error(E, b))])
        handler(E, r'^ReadBuffer::assertEof\(', eof, RB_NOTE)
        misuse(E, lambda s: z3.BoolVal(False))
        C = new_object(E, st, 'winpty_spawn_config_s', 'cfg')
        fl = z3.BitVec('flags', 64)
        C.set(st, 'winptyFlags', fl)
        strs = [wmember(E, st, C, n) for n in ('appname', 'cmdline', 'cwd', 'env')] + [wmember(E, st, W, 'spawnDesktopName')]
        g(st, got=(), ncurs=0)

        def dup(E, s, a, ci):
            E.oblige(s, hv(a[0]) == H_AGENT, 'precondition', 'the handle is taken from the agent')
            E.oblige(s, z3.And(hv(a[2]) == w64(2 ** 64 - 1), bv(a[6], 32) == 3), 'precondition', 'moved to this process with the same access')
            E.oblige(s, bv(a[5], 32) == 0, 'precondition', 'not inherited by later children')
            v, b = fresh('local', 64), s.copy()
            s.assume(z3.And(v != 0, v != INV, *[v != w for _, w in s.ghost['got']]))
            g(b, bad=True)
            E.store_raw(s, a[3], Ptr(0, v), 8)
            g(s, got=s.ghost['got'] + ((hv(a[1]), v),))
            return Outs([(s, Ret(1)), (b, Ret(0))])
        handler(E, r'^DuplicateHandle$', dup, 'DuplicateHandle with DUPLICATE_CLOSE_SOURCE: moves the handle, or fails')
        handler(E, r'^GetCurrentProcess$', lambda E, s, a, ci: Ptr(0, 2 ** 64 - 1), 'GetCurrentProcess')

        def outp(name, want, size):
            if not want:
                return Ptr(0, 0)
            p = E.new_cells(st, size, name)
            E.store_raw(st, p, Ptr(0, z3.BitVec('stale.' + name, 64)) if size == 8 else z3.BitVec('stale.' + name, 32), size)
            return p
        ph, th, ec, err = outp('process', wp_, 8), outp('thread', wt, 8), outp('error', we, 4), api_err(E, st, wx)
        E.merge = False
        E.targets.append('winpty_spawn')
        for s, o in E.exec_fn(st, E.find_fn(r'^winpty_spawn$'), [W.ptr, C.ptr, ph, th, ec, err]):
            if not api_end(E, s, o, err, bv(o.v, 32) != 0 if isinstance(o, Ret) else None):
                continue
            t = s.ghost['translated']
            ld = lambda p: hv(E.load_raw(s, p, 8, ('ptr',)))
            P, T = (ld(ph) if wp_ else None), (ld(th) if wt else None)
            X = bv(E.load_raw(s, ec, 4, None), 32) if we else None
            if not open_:
                dead_session(E, s)
            if s.ghost['nw']:
                it = s.ghost['sent']
                if ob_kinds(E, s, it, ['raw64'] + PROTO['StartProcess'], 'the request is well-formed'):
                    E.oblige(s, z3.And(it[1][1] == en['StartProcess'], it[2][1] == fl), 'postcondition', 'the flags are sent unchanged')
                    E.oblige(s, z3.And(it[3][1] == wp_, it[4][1] == wt), 'postcondition', 'exactly the wanted handles are requested')
                    for i, (n, f) in enumerate(strs):
                        E.oblige(s, wstr_is(E, s, it[5 + i], f, n), 'postcondition', ('the program', 'the command line', 'the directory', 'the environment', 'the desktop')[i] + ' is sent unchanged')
            rd = s.ghost['rd']
            res = rd[0][1] if rd else None
            got, closed = list(s.ghost['got']), list(s.ghost['closed'])
            if t is None:
                if not ob_kinds(E, s, rd, ['i32', 'i64', 'i64', 'eof'], 'success means a complete reply'):
                    continue
                E.oblige(s, res == en['ProcessCreated'], 'postcondition', 'success means that the process was created')
                E.oblige(s, pipe_now(E, s) == H_PIPE, 'postcondition', 'the connection stays open after a success')
                # handles the agent sent were moved here, each given to the caller or closed
                given = []
                for i, (want, V, nm) in enumerate(((wp_, P, 'process'), (wt, T, 'thread'))):
                    if not want:
                        continue
                    rem = rd[1 + i][1]
                    if E.must(s, rem != 0):
                        mt = [x for x in got if not any(x is y for y in given) and (x[0] is rem or E.must(s, x[0] == rem))]
                        E.oblige(s, bool(mt), 'postcondition', 'the %s handle sent is taken over' % nm)
                        if not mt:
                            continue
                        v = mt[0][1]
                        given.append(mt[0])
                        E.oblige(s, V == v, 'postcondition', 'the caller gets the %s handle' % nm)
                        E.oblige(s, z3.And(*[c != v for c in closed]) if not any(c is v for c in closed) else False, 'postcondition', 'the %s handle given out stays open' % nm)
                    else:
                        E.oblige(s, rem == 0, 'postcondition', 'a %s handle is either sent or not' % nm)
                        E.oblige(s, V == 0, 'postcondition', 'no %s handle is invented' % nm)
                for a, v in got:
                    if not any(v is y for _, y in given):
                        E.oblige(s, any(a is r[1] or E.must(s, a == r[1]) for r in rd[1:3]), 'postcondition', 'no other handle is taken over')
                        E.oblige(s, any(c is v or E.must(s, c == v) for c in closed), 'postcondition', 'a handle nobody asked for is closed')
                if we:
                    E.oblige(s, X == 0, 'postcondition', 'no error code on success')
                E.oblige(s, not s.ghost['bad'], 'postcondition', 'success means that nothing failed')
            else:
                for V, nm in ((P, 'process'), (T, 'thread')):
                    if V is not None:
                        E.oblige(s, V == 0, 'postcondition', 'no %s handle is returned on failure' % nm)
                for a, v in got:
                    E.oblige(s, any(c is v or E.must(s, c == v) for c in closed), 'postcondition', 'a handle already taken over is closed on failure')
                cpf = kinds(rd) == ['i32', 'i32', 'eof'] and E.must(s, res == en['CreateProcessFailed'])
                if cpf:
                    if we:
                        E.oblige(s, X == rd[1][1], 'postcondition', 'the exact error code is returned')
                    E.oblige(s, z3.BoolVal(s.ghost['exc'] == 'oom') if isinstance(s.ghost['exc'], str) else s.ghost['exc'] == ERR['SPAWN'], 'postcondition', 'the failure to create the process is told from other failures')
                    E.oblige(s, pipe_now(E, s) == H_PIPE, 'postcondition', 'the connection stays open when only the process could not be created')
                else:
                    if we:
                        E.oblige(s, X == 0, 'postcondition', 'no error code for other failures')
                    E.oblige(s, pipe_now(E, s) == 0, 'postcondition', 'a failure closes the connection')
                    if open_:
                        okres = z3.BoolVal(False) if res is None else z3.Or(res == en['ProcessCreated'], res == en['CreateProcessFailed'])
                        E.oblige(s, z3.Or(z3.BoolVal(bool(s.ghost['bad'])), z3.Not(okres)), 'postcondition', 'a correct reply is not refused')


def unit_handle64(ctx):
    """a handle value survives its 64-bit form in the message"""
    E, st, W = session(ctx)
    h = z3.BitVec('h', 64)
    E.targets.append('handleFromInt64')
    for s, o in E.exec_fn(st, E.find_fn(r'^handleFromInt64\('), [h]):
        E.oblige(s, hv(o.v) == h, 'postcondition', 'the handle is the value sent')


# ---------------------------------------------------------------- configuration (L03)

CONFIG_MASK, SPAWN_MASK = 0xF, 0x3
# the exported constants are part of the interface: WINPTY_FLAG_CONERR 1, PLAIN_OUTPUT 2, COLOR_ESCAPES 4, ALLOW_CURPROC_DESKTOP_CREATION 8


def oom(E):
    """every allocation may fail: operator new, strings and vectors"""
    import std

    def wrap(h):
        def f(E, s, a, ci):
            b = s.copy()
            r = h(E, s, a, ci)
            g(b, bad=True)
            return Outs((list(r.lst) if isinstance(r, Outs) else [(s, r if isinstance(r, (Throw, NoReturn)) else Ret(r))]) + [xthrow(E, b, BADALLOC, 'oom')])
        return f
    handler(E, r'^operator new(\[\])?\(', wrap(std.h_new), 'operator new: a new object, or bad_alloc')
    handler(E, r'^(?:.* )?w?string::(?:w?string|operator=|append|operator\+=|push_back|assign|insert|reserve|resize)\((?!w?string&&)', wrap(std.h_str), 'libstdc++ std::basic_string (growing may fail)')
    handler(E, r'^(?:void )?w?string::(?:w?string|basic_string)<', wrap(std.h_str_tmpl), 'libstdc++ std::basic_string (growing may fail)')


def plain(ctx, extra=()):
    E = ctx.mk([WP] + list(extra))
    st = State()
    g(st, exc=None, newcode=None, translated=None, locked=False, bad=False, closed=(), lasterr=z3.BitVec('err0', 32))
    install_exc(E)
    install_translate(E)
    handler(E, r'^trace\(', lambda E, s, a, ci: None, 'trace: no effect on program state')
    handler(E, r'^assertTrace\(', lambda E, s, a, ci: None, False)
    return E, st


def unit_config(ctx):
    """winpty_config_*: exactly the options set"""
    fl = z3.BitVec('flags', 64)
    for given in (True, False):
        E, st = plain(ctx)
        oom(E)
        err = api_err(E, st, given)
        E.inputs['flags'] = fl
        misuse(E, lambda s: (fl & w64(2 ** 64 - 1 - CONFIG_MASK)) != 0)
        E.targets.append('winpty_config_new')
        for s, o in E.exec_fn(st, E.find_fn(r'^winpty_config_new$'), [fl, err]):
            if not isinstance(o, Ret):
                api_end(E, s, o, err, None)
                continue
            api_end(E, s, o, err, z3.BoolVal(o.v.oid != 0))
            E.oblige(s, (fl & w64(2 ** 64 - 1 - CONFIG_MASK)) == 0, 'postcondition', 'unknown flags are refused')
            E.oblige(s, (s.ghost['translated'] is None) or bool(s.ghost['bad']), 'postcondition', 'fails only for lack of memory')
            if o.v.oid == 0:
                continue
            C = View(E, 'winpty_config_s', o.v)
            gv = lambda n, w=32: bv(C.get(s, n), w)
            E.oblige(s, gv('flags', 64) == fl, 'postcondition', 'the flags are kept')
            E.oblige(s, z3.And(gv('cols') == 80, gv('rows') == 25, gv('mouseMode') == 1, gv('timeoutMs') == 30000), 'postcondition', 'the documented defaults')
            for s2, o2 in E.exec_fn(s.copy(), E.find_fn(r'^winpty_config_free$'), [o.v]):
                m = s2.mem.get(o.v.oid)
                E.oblige(s2, m is None or not m.alive, 'postcondition', 'freeing releases the object')
    ALL = dict(flags=64, cols=32, rows=32, mouseMode=32, timeoutMs=32)

    def setter(fn, args, forbidden, sets):
        E, st = plain(ctx)
        C = new_object(E, st, 'winpty_config_s', 'cfg')
        old = {n: bv(C.get(st, n), w) for n, w in ALL.items()}
        E.inputs.update({str(a): a for a in args})
        misuse(E, lambda s: forbidden)
        E.targets.append(fn)
        for s, o in E.exec_fn(st, E.find_fn('^%s$' % fn), [C.ptr] + args):
            if not isinstance(o, Ret):
                continue
            E.oblige(s, z3.Not(forbidden), 'postcondition', 'a value outside the range is refused')
            for n, w in ALL.items():
                E.oblige(s, bv(C.get(s, n), w) == sets.get(n, old[n]), 'postcondition' if n in sets else 'frame', ('%s is the value set' if n in sets else '%s is left alone') % n)
    c, r, m, t = (z3.BitVec(n, 32) for n in ('cols', 'rows', 'mode', 'timeout'))
    setter('winpty_config_set_initial_size', [c, r], z3.Or(c <= 0, r <= 0), dict(cols=c, rows=r))
    setter('winpty_config_set_mouse_mode', [m], z3.Or(m < 0, m > 2), dict(mouseMode=m))
    setter('winpty_config_set_agent_timeout', [t], t == 0, dict(timeoutMs=t))


def unit_env(ctx):
    """wstringFromEnvBlock: the whole block, with its terminators"""
    E, st = plain(ctx)
    T = z3.BitVec('T', 64)            # the final null: the first null preceded by a null, or at the start
    F = FArr.base(16, 'env')
    e = lambda i: bv(F.read(i), 16)
    st.assume(z3.ULE(T, 1 << 30))
    E.inputs['T'] = T
    env = E.new_arr(st, 2, {0: 2}, T + 1, 'env', {0: F})
    st.assume(z3.And(e(T) == 0, z3.Or(T == 0, e(T - 1) == 0)))
    # T is the first such position, at the places the argument needs
    first = lambda i: z3.Implies(z3.And(z3.ULT(i, T), e(i) == 0), z3.And(i != 0, e(i - 1) != 0))
    st.assume(z3.And(first(w64(0)), first(T - 1)))
    misuse(E, lambda s: z3.BoolVal(False))
    pos = lambda p: divmod_lin(p.off, 2)[0]

    def wlen(E, s, a, ci):
        i = bv(pos(a[0]), 64)
        z = fresh('nul', 64)
        E.oblige(s, z3.ULE(i, T), 'memory', 'inside the block')
        # z is the first null at or after i
        nz = lambda j: z3.Implies(z3.And(z3.ULE(i, j), z3.ULT(j, z)), e(j) != 0)
        s.assume(z3.And(z3.ULE(i, z), e(z) == 0, z3.ULE(z, T), nz(i), nz(T - 1), nz(z - 1)))
        return z - i
    handler(E, r'^wcslen$', wlen, 'wcslen')
    cur = lambda c: bv(pos(E.load_raw(c.st, c.slot('p'), 8, ('ptr',))), 64)
    E.ptr_strides = {}
    E.loops = [LoopSpec('variables', lambda c: [('at the start of a variable', z3.And(z3.ULE(cur(c), T), z3.Or(cur(c) == 0, e(cur(c) - 1) == 0)))], fn=r'^wstringFromEnvBlock',
                        on_head=lambda c: c.st.assume(first(cur(c))), decreases=lambda c: T - cur(c))]
    r = E.new_cells(st, 32, 'ret')
    E.targets.append('wstringFromEnvBlock')
    for s, o in E.exec_fn(st, E.find_fn(r'^wstringFromEnvBlock\('), [r, env]):
        if not isinstance(o, Ret):
            continue
        q = seq_get(E, s, r)
        f = farrs_of(E, s, q)[0]
        E.oblige(s, bv(q.len, 64) == z3.If(T == 0, w64(2), T + 1), 'postcondition', 'the length of the block with its two terminators')
        E.oblige(s, z3.Implies(z3.ULE(k, T), bv(f.read(k), 16) == e(k)), 'postcondition', 'every character of the block')
        E.oblige(s, z3.And(bv(f.read(bv(q.len, 64) - 1), 16) == 0, bv(f.read(bv(q.len, 64) - 2), 16) == 0), 'postcondition', 'two terminators')


def unit_spawn_config(ctx):
    """winpty_spawn_config_new: exactly the strings and flags given"""
    fl = z3.BitVec('flags', 64)
    for mask, given in ((15, True), (0, True), (5, False), (10, True)):
        E, st = plain(ctx)
        oom(E)
        err = api_err(E, st, given)
        E.inputs['flags'] = fl
        bad = (fl & w64(2 ** 64 - 1 - SPAWN_MASK)) != 0
        misuse(E, lambda s: bad)
        names = ('appname', 'cmdline', 'cwd', 'env')
        args, want = [], {}
        for i, n in enumerate(names):
            if mask >> i & 1:
                L = z3.BitVec(n + '.len', 64)
                st.assume(z3.ULE(L, 1 << 30))
                f = FArr.base(16, n).set(L, 0)
                args.append(E.new_arr(st, 2, {0: 2}, L + 1, n, {0: f}))
                want[n] = (L, f)
            else:
                args.append(Ptr(0, 0))
                want[n] = (w64(0), None)
        oids = {a.oid: want[n][0] for a, n in zip(args, names) if a.oid}

        def clen(E, s, p, esz):
            if p.oid in oids and bv(p.off, 64).eq(w64(0)) or (p.oid in oids and p.off == 0):
                return oids[p.oid]
            return None
        E.fn_overrides['cstrlen'] = clen

        def block(E, s, a, ci):
            b = s.copy()
            g(b, bad=True)
            if a[1].oid == 0:
                seq_put(E, s, a[0], new_seq(E, s, 'wchar_t', 0, {0: FArr.const(16, 0)}, isstr=True, name='env'))
            else:
                E.oblige(s, a[1].oid == args[3].oid, 'precondition', 'the block given')
                L, f = want['env']
                seq_put(E, s, a[0], new_seq(E, s, 'wchar_t', L, {0: f}, isstr=True, name='env'))
            return Outs([(s, Ret(None)), xthrow(E, b, BADALLOC, 'oom')])
        contract(E, r'^wstringFromEnvBlock\(', block, 'wstringFromEnvBlock: the whole block (unit wstringFromEnvBlock)')
        E.targets.append('winpty_spawn_config_new')
        for s, o in E.exec_fn(st, E.find_fn(r'^winpty_spawn_config_new$'), [fl] + args + [err]):
            if not isinstance(o, Ret):
                api_end(E, s, o, err, None)
                continue
            api_end(E, s, o, err, z3.BoolVal(o.v.oid != 0))
            E.oblige(s, z3.Not(bad), 'postcondition', 'unknown flags are refused')
            E.oblige(s, s.ghost['translated'] is None or bool(s.ghost['bad']), 'postcondition', 'fails only for lack of memory')
            if o.v.oid == 0:
                continue
            C = View(E, 'winpty_spawn_config_s', o.v)
            E.oblige(s, bv(C.get(s, 'winptyFlags'), 64) == fl, 'postcondition', 'the flags are kept')
            for n in names:
                q = C.seq(s, n)
                L, f = want[n]
                E.oblige(s, bv(q.len, 64) == L, 'postcondition', 'the length of %s is kept' % n)
                if f is not None:
                    E.oblige(s, z3.Implies(z3.ULT(k, L), bv(farrs_of(E, s, q)[0].read(k), 16) == bv(f.read(k), 16)), 'postcondition', '%s is kept' % n)


# ---------------------------------------------------------------- errors (L02)

def shared(E):
    """std::shared_ptr<std::wstring>: an owned pointer to the string"""
    def copy(E, s, a, ci):
        E.store_raw(s, a[0], E.load_raw(s, a[1], 8, ('ptr',)), 8)
        E.store_raw(s, padd(a[0], 8), Ptr(0, 0), 8)
        g(s, shares=s.ghost.get('shares', 0) + 1)

    def drop(E, s, a, ci):
        g(s, shares=s.ghost.get('shares', 0) - 1)

    def adopt(E, s, a, ci):
        b = s.copy()
        g(b, bad=True)
        E.store_raw(s, a[0], a[1], 8)
        E.store_raw(s, padd(a[0], 8), Ptr(0, 0), 8)
        g(s, shares=s.ghost.get('shares', 0) + 1)
        return Outs([(s, Ret(None)), xthrow(E, b, BADALLOC, 'oom')])

    def get(E, s, a, ci):
        return E.load_raw(s, a[0], 8, ('ptr',))

    def make(E, s, a, ci):
        m = E.load_raw(s, a[1], 8, ('ptr',))
        b = s.copy()
        g(b, bad=True)
        L = c_len(E, s, m, 2)
        src, i0 = src_range(E, s, m, L, 2)
        o = E.new_cells(s, 32, 'message')
        seq_put(E, s, o, new_seq(E, s, 'wchar_t', L, {0: FArr.const(16, 0).copy(0, L, src, i0).set(L, 0)}, isstr=True, name='message'))
        E.store_raw(s, a[0], o, 8)
        E.store_raw(s, padd(a[0], 8), Ptr(0, 0), 8)
        g(s, shares=s.ghost.get('shares', 0) + 1)
        return Outs([(s, Ret(None)), xthrow(E, b, BADALLOC, 'oom')])
    N = 'libstdc++ std::shared_ptr'
    handler(E, r'^std::shared_ptr<wstring >::shared_ptr\(std::shared_ptr<wstring > (const&|&&)\)', copy, N)
    handler(E, r'^std::shared_ptr<wstring >::~shared_ptr\(', drop, N)
    handler(E, r'^std::shared_ptr<wstring >::shared_ptr<wstring, void>\(wstring\*\)', adopt, N)
    handler(E, r'^std::__shared_ptr(_access)?<wstring.*::(get|operator->)\(', get, N)
    handler(E, r'^std::shared_ptr<.*std::make_shared<wstring, wchar_t const\*&>', make, N)


from std import c_len, src_range


def cstr(E, st, name, nonempty=True):
    """a null-terminated string of any length, and its length"""
    L = z3.BitVec(name + '.len', 64)
    st.assume(z3.ULE(L, 1 << 30))
    if nonempty:
        st.assume(L != 0)
    f = FArr.base(16, name).set(L, 0)
    p = E.new_arr(st, 2, {0: 2}, L + 1, name, {0: f})
    st.assume(bv(f.read(w64(0)), 16) != 0)
    E.strlens = dict(getattr(E, 'strlens', {}))
    E.strlens[p.oid] = L

    def length(E, s, q, esz):
        if not bv(q.off, 64).eq(w64(0)):
            return None
        if q.oid in E.strlens:
            return E.strlens[q.oid]
        for ob in s.mem.values():
            if ob.kind == 'cells':
                for c in ob.cells.values():
                    if isinstance(c[1], Seq) and c[1].isstr and c[1].oid == q.oid:
                        n = fresh('strlen', 64)     # up to the first null, if one is embedded
                        s.assume(z3.ULE(n, bv(c[1].len, 64)))
                        return n
        return None
    E.fn_overrides['cstrlen'] = length
    return p, L, f


def unit_translate(ctx):
    """translateException: every exception becomes an error object; nothing escapes"""
    for kind in ('decode', 'lib', 'winpty', 'oom', 'other'):
        for given in (True, False):
            E = ctx.mk([WP])
            st = State()
            g(st, exc=None, newcode=None, bad=False, shares=0)
            oom(E)
            shared(E)

            def wide(E, s, a, ci):
                from std import h_anystr
                b = s.copy()
                h_anystr(E, s, a, ci)
                return Outs([(s, Ret(None)), xthrow(E, b, BADALLOC, 'oom')])
            handler(E, r'^utf8FromWide\(', wide, 'utf8FromWide: some string, or bad_alloc')

            def trace(E, s, a, ci):
                b = s.copy()
                return Outs([(s, Ret(None)), xthrow(E, b, BADALLOC, 'oom')])
            handler(E, r'^trace\(', trace, 'trace: no effect on program state; its first use may throw bad_alloc')
            misuse(E, lambda s: z3.BoolVal(False))
            msg, L, f = cstr(E, st, 'what')
            code = z3.BitVec('code', 32)
            st.assume(code != 0)
            if kind == 'lib':
                X = new_object(E, st, 'LibWinptyException', 'exception')
                X.set(st, 'm_code', code)
                so = E.new_cells(st, 32, 'message')
                seq_put(E, st, so, new_seq(E, st, 'wchar_t', L, {0: f}, isstr=True, name='message'))
                E.store_raw(st, X.p('m_what'), so, 8)
                E.store_raw(st, padd(X.p('m_what'), 8), Ptr(0, 0), 8)
                xp = X.ptr
            else:
                xp = E.new_cells(st, 64, 'exception')
            vt = E.new_cells(st, 64, 'vtable')
            for i in range(8):
                E.store_raw(st, padd(vt, 8 * i), E.new_cells(st, 8, 'virtual'), 8)
            E.store_raw(st, xp, vt, 8)
            E.fn_overrides['indirect'] = lambda E, s, v, args, I: msg
            ti = {'decode': '@_ZTIN10ReadBuffer11DecodeErrorE', 'lib': LIBEXC, 'winpty': WINEXC, 'oom': BADALLOC, 'other': '@_ZTISt12length_error'}[kind]
            st.ghost['%exc'] = Throw(ti, xp)
            st.ghost['%caught'] = (st.ghost['%exc'],)
            if given:
                errp = E.new_cells(st, 8, 'errp')
                E.store_raw(st, errp, Ptr(0, 0), 8)
            else:
                errp = Ptr(0, 0)
            ref = E.new_cells(st, 8, 'err')
            E.store_raw(st, ref, errp, 8)
            E.merge = False
            E.targets += ['translateException', 'winpty_error_code', 'winpty_error_msg', 'winpty_error_free']
            for s, o in E.exec_fn(st, E.find_fn(r'^translateException\('), [ref]):
                if isinstance(o, Throw):
                    E.oblige(s, False, 'exception', 'no exception leaves the API')
                    continue
                if not isinstance(o, Ret) or not given:
                    continue
                e = E.load_raw(s, errp, 8, ('ptr',))
                E.oblige(s, e.oid != 0, 'postcondition', 'an error object is stored')
                if e.oid == 0:
                    continue
                for s2, o2 in E.exec_fn(s.copy(), E.find_fn(r'^winpty_error_code$'), [e]):
                    c = bv(o2.v, 32)
                    E.oblige(s2, c != 0, 'postcondition', 'a failure has a code other than success')
                    if not s.ghost['bad']:
                        E.oblige(s2, c == (code if kind == 'lib' else {'oom': 1}.get(kind, ERR['UNSPECIFIED'])), 'postcondition', 'the code is the failure\'s')
                for s2, o2 in E.exec_fn(s.copy(), E.find_fn(r'^winpty_error_msg$'), [e]):
                    E.oblige(s2, o2.v.oid != 0, 'postcondition', 'there is a message')
                    E.oblige(s2, bv(E.load_raw(s2, o2.v, 2, None), 16) != 0, 'postcondition', 'the message is not empty')
                    if kind in ('lib', 'winpty') and not s.ghost['bad']:
                        src, i0 = src_range(E, s2, o2.v, L + 1, 2)
                        E.oblige(s2, z3.Implies(z3.ULE(k, L), bv(src.read(add64(i0, k)), 16) == bv(f.read(k), 16)), 'postcondition', 'the message is the failure\'s')
                before = {oid for oid, ob in s.mem.items() if ob.alive}
                s3 = s.copy()
                for s2, o2 in E.exec_fn(s3, E.find_fn(r'^winpty_error_free$'), [e]):
                    E.oblige(s2, isinstance(o2, Ret), 'exception', 'freeing an error cannot fail')
                    E.oblige(s2, s2.ghost['shares'] == 0, 'postcondition', 'freeing an error releases its message')
                    if e.oid not in E.oid_global:
                        m = s2.mem.get(e.oid)
                        E.oblige(s2, m is None or not m.alive, 'postcondition', 'freeing an error releases the object')
    # without an error object
    E = ctx.mk([WP])
    st = State()
    z = Ptr(0, 0)
    for s2, o2 in E.exec_fn(st.copy(), E.find_fn(r'^winpty_error_code$'), [z]):
        E.oblige(s2, bv(o2.v, 32) == 0, 'postcondition', 'no error object means success')
    for s2, o2 in E.exec_fn(st.copy(), E.find_fn(r'^winpty_error_msg$'), [z]):
        E.oblige(s2, o2.v.oid != 0, 'postcondition', 'there is a message for success')
    for s2, o2 in E.exec_fn(st.copy(), E.find_fn(r'^winpty_error_free$'), [z]):
        E.oblige(s2, isinstance(o2, Ret), 'exception', 'freeing no error does nothing')


def unit_exceptions(ctx):
    """the exception classes keep their code and message"""
    E = ctx.mk([WP])
    st = State()
    g(st, exc=None, newcode=None, bad=False, shares=0)
    shared(E)
    msg, L, f = cstr(E, st, 'what', False) if False else cstr(E, st, 'what')
    code = z3.BitVec('code', 32)
    X = new_object(E, st, 'LibWinptyException', 'exception')
    E.targets += ['LibWinptyException::LibWinptyException', 'LibWinptyException::code', 'LibWinptyException::what']
    for s, o in E.exec_fn(st, E.find_fn(r'^LibWinptyException::LibWinptyException\(unsigned long'), [X.ptr, code, msg]):
        if not isinstance(o, Ret):
            E.oblige(s, s.ghost['bad'], 'exception', 'fails only for lack of memory')
            continue
        for s2, o2 in E.exec_fn(s.copy(), E.find_fn(r'^LibWinptyException::code\('), [X.ptr]):
            E.oblige(s2, bv(o2.v, 32) == code, 'postcondition', 'the code is kept')
        for s2, o2 in E.exec_fn(s.copy(), E.find_fn(r'^LibWinptyException::what\('), [X.ptr]):
            src, i0 = src_range(E, s2, o2.v, L + 1, 2)
            E.oblige(s2, z3.Implies(z3.ULE(k, L), bv(src.read(add64(i0, k)), 16) == bv(f.read(k), 16)), 'postcondition', 'the message is kept')
    WX = 'src/shared/WinptyException.cc'
    E = ctx.mk([WX])
    st = State()
    g(st, exc=None, newcode=None, bad=False, shares=0)
    shared(E)
    msg, L, f = cstr(E, st, 'what')
    E.targets += ['throwWinptyException', 'throwWindowsError']
    for s, o in E.exec_fn(st, E.find_fn(r'^throwWinptyException\('), [msg]):
        E.oblige(s, isinstance(o, Throw), 'postcondition', 'throws')
        if isinstance(o, Throw) and not s.ghost['bad']:
            E.oblige(s, E.ti_match(o.ti, WINEXC), 'postcondition', 'throws a WinptyException')
            for s2, o2 in E.exec_fn(s.copy(), E.find_fn(r'ExceptionImpl::what\('), [o.ptr]):
                src, i0 = src_range(E, s2, o2.v, L + 1, 2)
                E.oblige(s2, z3.Implies(z3.ULE(k, L), bv(src.read(add64(i0, k)), 16) == bv(f.read(k), 16)), 'postcondition', 'the message is kept')


def unit_names(ctx):
    """winpty_conin_name and the like: the names kept in the session"""
    E, st, W = session(ctx)
    misuse(E, lambda s: z3.BoolVal(False))
    ms = {n: wmember(E, st, W, n) for n in ('coninPipeName', 'conoutPipeName', 'conerrPipeName')}
    for fn, n in (('winpty_conin_name', 'coninPipeName'), ('winpty_conout_name', 'conoutPipeName'), ('winpty_conerr_name', 'conerrPipeName')):
        E.targets.append(fn)
        L, f = ms[n]
        for s, o in E.exec_fn(st.copy(), E.find_fn('^%s$' % fn), [W.ptr]):
            if not isinstance(o, Ret):
                E.oblige(s, False, 'exception', 'no exception leaves the API')
                continue
            if o.v.oid == 0:
                E.oblige(s, L == 0 if n == 'conerrPipeName' else False, 'postcondition', 'a name is returned, except for an error pipe that does not exist')
                continue
            E.oblige(s, L != 0 if n == 'conerrPipeName' else True, 'postcondition', 'no name for an error pipe that does not exist')
            src, i0 = src_range(E, s, o.v, L + 1, 2)
            E.oblige(s, z3.And(z3.Implies(z3.ULT(k, L), bv(src.read(add64(i0, k)), 16) == bv(f.read(k), 16)), bv(src.read(add64(i0, L)), 16) == 0), 'postcondition', 'the name the agent sent')
    E.targets.append('winpty_agent_process')
    for s, o in E.exec_fn(st.copy(), E.find_fn('^winpty_agent_process$'), [W.ptr]):
        E.oblige(s, isinstance(o, Ret) and hv(o.v) == H_AGENT, 'postcondition', 'the agent\'s process handle')


# ---------------------------------------------------------------- starting the agent (L03, N02)

def lit_at(E, s, p, esz=2):
    """text of a string literal"""
    out = []
    for i in range(4096):
        v = E.load_raw(s, padd(p, esz * i), esz, None)
        v = v if isinstance(v, int) else z3.simplify(bv(v, 8 * esz))
        if not isinstance(v, int):
            if not z3.is_bv_value(v):
                raise Unsupported('a string that is not a literal')
            v = v.as_long()
        if v == 0:
            return ''.join(map(chr, out))
        out.append(v)
    raise Unsupported('long literal')


def norm_pieces(ps):
    out = []
    for p in ps:
        if p == ('lit', ''):
            continue
        if p[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(out)


def pieces_of(E, s, p):
    """what a std::wstring was put together from"""
    q = seq_get(E, s, p)
    return s.ghost.get('pc:%s' % q.oid, (('str', q.oid),))


def text(E, s, p, pieces, name='text', maybe_empty=False):
    """a string put together from these pieces"""
    n = fresh(name + '.len', 64)
    s.assume(z3.ULE(n, 1 << 31))
    if not maybe_empty:
        s.assume(n != 0)
    f = FArr.base(16, '%s%d' % (name, E.nobj() if hasattr(E, 'nobj') else len(s.mem))).set(n, 0)
    ps = norm_pieces(pieces)
    if ps and ps[0][0] == 'lit':
        s.assume(z3.And(z3.UGE(n, len(ps[0][1])), bv(f.read(w64(0)), 16) == ord(ps[0][1][0])))
    q = new_seq(E, s, 'wchar_t', n, {0: f}, isstr=True, name=name)
    seq_put(E, s, p, q)
    g(s, **{'pc:%s' % q.oid: norm_pieces(pieces)})
    return q


def same_pieces(E, s, got, want, what):
    got, want = norm_pieces(got), norm_pieces(want)
    ok = len(got) == len(want)
    E.oblige(s, ok and all(a[0] == b[0] and (a == b if a[0] in ('lit', 'str', 'id') else True) for a, b in zip(got, want)), 'precondition', what)
    if not ok:
        return
    for a, b in zip(got, want):
        if a[0] in ('dec', 'hex') and b[0] == a[0]:
            E.oblige(s, z3.And(z3.BoolVal(a[1] == b[1]) if a[0] == 'dec' and False else z3.BoolVal(True), a[2] == b[2]), 'precondition', what + ' (each number)')


def builder(E):
    """WStringBuilder as the list of what was put in (the digits are property D01)"""
    key = lambda p: 'sb:%s:%s' % (p.oid, p.off)

    def add(s, p, *ps):
        g(s, **{key(p): s.ghost.get(key(p), ()) + ps})

    def ctor(E, s, a, ci):
        g(s, **{key(a[0]): ()})

    def put(E, s, a, ci):
        m = re.search(r'operator<< ?(?:<\d+ull>)?\((.*)\)', ci.dn)
        t = m.group(1)
        if t == 'wchar_t const*':
            add(s, a[0], ('lit', lit_at(E, s, a[1])) if a[1].oid in E.oid_global else ('cstr', a[1].oid))
        elif t == 'wstring const&':
            add(s, a[0], *pieces_of(E, s, a[1]))
        elif t == 'wchar_t':
            if not isinstance(a[1], int):
                raise Unsupported('an unknown character')
            add(s, a[0], ('lit', chr(a[1])))
        elif t in ('int', 'long', 'short', 'long long'):
            w = dict(int=32, long=32, short=16).get(t, 64)
            v = bv(a[1], w)
            add(s, a[0], ('dec', True, z3.SignExt(64 - w, v) if w < 64 else v))
        elif t.startswith('unsigned'):
            w = 64 if 'long long' in t else 16 if 'short' in t else 32
            v = bv(a[1], w)
            add(s, a[0], ('dec', False, z3.ZeroExt(64 - w, v) if w < 64 else v))
        elif 'ValueString' in t:
            add(s, a[0], s.ghost['vs:%s:%s' % (a[1].oid, a[1].off)])
        else:
            raise Unsupported('builder << ' + t)
        if not E.oomb:
            return a[0]
        b = s.copy()
        g(b, bad=True)
        return Outs([(s, Ret(a[0])), xthrow(E, b, BADALLOC, 'oom')])

    def moved(E, s, a, ci):
        text(E, s, a[0], s.ghost.get(key(a[1]), ()), 'built')

    def chars(E, s, a, ci):
        o = E.new_cells(s, 32, 'built')
        text(E, s, o, s.ghost.get(key(a[0]), ()), 'built')
        q = seq_get(E, s, o)
        return Ptr(q.oid, 0)

    def whex(E, s, a, ci):
        w = 64 if 'long long' in ci.dn else 32
        v = bv(a[1], w)
        g(s, **{'vs:%s:%s' % (a[0].oid, a[0].off): ('hex', None, z3.ZeroExt(64 - w, v) if w < 64 else v)})
    E.oomb = True
    N = 'WStringBuilder (property D01)'
    handler(E, r'^GStringBuilder<wchar_t>::GStringBuilder\(', ctor, N)
    handler(E, r'^GStringBuilder<wchar_t>::~GStringBuilder\(', lambda E, s, a, ci: None, N)
    handler(E, r'^(?:GStringBuilder<wchar_t>& )?GStringBuilder<wchar_t>::operator<<', put, N)
    handler(E, r'^GStringBuilder<wchar_t>::str_moved\(', moved, N)
    handler(E, r'^GStringBuilder<wchar_t>::c_str\(', chars, N)
    handler(E, r'\bwhexOfInt<false, ', whex, N)

    def plus(E, s, a, ci):
        m = re.search(r'\((.*), (.*)\)$', ci.dn)
        ps = []
        for p, t in ((a[1], m.group(1)), (a[2], m.group(2))):
            ps += [('lit', lit_at(E, s, p))] if 'wchar_t const*' in t else list(pieces_of(E, s, p))
        text(E, s, a[0], ps, 'sum')
    handler(E, r'^(?:.* )?(?:std::)?operator\+<?.*\((?:wchar_t const\*|wstring.*), (?:wchar_t const\*|wstring.*)\)$', plus, 'libstdc++ std::basic_string')


def crit(E):
    handler(E, r'^(Initialize|Delete)CriticalSection$', lambda E, s, a, ci: None, 'critical section set up and removed')


def unit_open(ctx):
    """winpty_open: the configuration reaches the agent; the pipe names come from its first message"""
    E, st, W0 = session(ctx, [OH])
    en = enums(E)
    install_read(E)
    install_translate(E)
    builder(E)
    crit(E)
    g(st, rd=(), bad=False, translated=None, log=(), desk=0)
    misuse(E, lambda s: z3.BoolVal(False))
    C = new_object(E, st, 'winpty_config_s', 'cfg')
    cv = lambda n, w=32: bv(C.get(st, n), w)
    fl, cols, rows, mouse = cv('flags', 64), cv('cols'), cv('rows'), cv('mouseMode')
    err = api_err(E, st)
    for n in ('dumpWindowsVersion', 'dumpVersionToTrace'):
        handler(E, r'^%s\(' % n, lambda E, s, a, ci: None, n + ': traces only')
    vt = E.new_cells(st, 64, 'vtable')
    for i in range(8):
        E.store_raw(st, padd(vt, 8 * i), E.new_cells(st, 8, 'virtual'), 8)

    def log(s, x):
        g(s, log=s.ghost['log'] + (x,))

    def thrown(E, s):
        b = s.copy()
        g(b, bad=True)
        return xthrow(E, b, WINEXC, 'unspecified')

    def desktop(E, s, a, ci):
        E.oblige(s, a[1].oid == C.ptr.oid, 'precondition', 'the desktop is chosen by the configuration given')
        n, t = s.copy(), thrown(E, s)
        E.store_raw(n, a[0], Ptr(0, 0), 8)
        d = E.new_cells(s, 32, 'desktop')
        E.store_raw(s, d, vt, 8)
        E.store_raw(s, a[0], d, 8)
        g(s, desk=1, deskoid=d.oid)
        log(s, 'desktop')
        return Outs([(s, Ret(None)), (n, Ret(None)), t])
    contract(E, r'^setupBackgroundDesktop\(', desktop, 'setupBackgroundDesktop: a desktop, none, or it fails')

    def virt(E, s, v, args, I):
        if len(args) == 2:
            E.oblige(s, args[1].oid == s.ghost.get('deskoid'), 'precondition', 'the name of the desktop in use')
            q = text(E, s, args[0], (('id', 'desktop'),), 'desktop', True)
            g(s, dlen=q.len)
            return None
        if len(args) == 1:
            E.oblige(s, args[0].oid == s.ghost.get('deskoid') and s.ghost['desk'] == 1, 'precondition', 'the desktop is released once')
            g(s, desk=2)
            log(s, 'release')
            return None
        raise Unsupported('virtual call')
    E.fn_overrides['indirect'] = virt

    def create(E, s, a, ci):
        E.oblige(s, a[1].oid == C.ptr.oid, 'precondition', 'the configuration given')
        dp = pieces_of(E, s, a[2])
        dq = seq_get(E, s, a[2])
        E.oblige(s, dp == (('id', 'desktop'),) if s.ghost['desk'] else bv(dq.len, 64) == 0, 'precondition', 'the agent is started on the desktop chosen')
        E.oblige(s, s.ghost['desk'] != 2, 'precondition', 'the desktop lives until the agent has started')
        same_pieces(E, s, pieces_of(E, s, a[3]), [('dec', False, fl), ('lit', ' '), ('dec', True, z3.SignExt(32, mouse)), ('lit', ' '), ('dec', True, z3.SignExt(32, cols)), ('lit', ' '), ('dec', True, z3.SignExt(32, rows))],
                    'the agent is told the flags, the mouse mode and the size')
        E.oblige(s, bv(a[4], 32) == 0x10, 'precondition', 'the agent gets a console of its own')
        t = thrown(E, s)
        o = E.new_cells(s, class_size(E, 'winpty_s'), 'heap')
        E.getobj(s, o, 'write').tag = 'heap'
        V = View(E, 'winpty_s', o)
        for m, h in (('controlPipe', H_PIPE), ('agentProcess', H_AGENT), ('ioEvent', H_EVENT)):
            View(E, 'OwnedHandle', V.p(m)).set(s, 'm_h', Ptr(0, h))
        for m in ('spawnDesktopName', 'coninPipeName', 'conoutPipeName', 'conerrPipeName'):
            seq_put(E, s, V.p(m), new_seq(E, s, 'wchar_t', 0, {0: FArr.const(16, 0)}, isstr=True, name=m))
        E.store_raw(s, a[0], o, 8)
        g(s, wp=o.oid)
        log(s, 'agent')
        return Outs([(s, Ret(None)), t])
    contract(E, r'^createAgentSession\(', create, 'createAgentSession: a connected agent, or it fails (unit createAgentSession)')

    def curdesk(E, s, a, ci):
        t = thrown(E, s)
        text(E, s, a[0], (('id', 'current desktop'),), 'current')
        return Outs([(s, Ret(None)), t])
    handler(E, r'^getCurrentDesktopName\(', curdesk, 'getCurrentDesktopName: some name, or it fails')

    def rp(E, s, a, ci):
        E.oblige(s, s.ghost['log'][-1:] in (('agent',), ('release',)) and a[1].oid == s.ghost.get('wp'), 'precondition', 'the first message of the agent is read')
        t = thrown(E, s)
        log(s, 'read')
        return Outs([(s, Ret(None)), t])
    contract(E, r'^readPacket\(', rp, 'readPacket: one message (unit readPacket)')
    handler(E, r'^ReadBuffer::~ReadBuffer', lambda E, s, a, ci: None, RB_NOTE)
    E.merge = False
    E.targets.append('winpty_open')
    for s, o in E.exec_fn(st, E.find_fn(r'^winpty_open$'), [C.ptr, err]):
        if not isinstance(o, Ret):
            api_end(E, s, o, err, None)
            continue
        api_end(E, s, o, err, z3.BoolVal(o.v.oid != 0))
        E.oblige(s, s.ghost['desk'] != 1, 'postcondition', 'the desktop is released')
        w = s.ghost.get('wp')
        if s.ghost['translated'] is not None:
            E.oblige(s, o.v.oid == 0, 'postcondition', 'a failure returns nothing')
            if w is not None:
                m = s.mem.get(w)
                E.oblige(s, m is None or not m.alive, 'postcondition', 'a failure leaves no session behind')
                E.oblige(s, len(s.ghost['closed']) == 3, 'postcondition', 'a failure closes the pipe and the process and event handle')
            continue
        E.oblige(s, o.v.oid == w, 'postcondition', 'the session started is returned')
        E.oblige(s, s.ghost['closed'] == (), 'postcondition', 'its handles stay open')
        E.oblige(s, not s.ghost['bad'], 'postcondition', 'success means that nothing failed')
        rd = s.ghost['rd']
        conerr = E.must(s, (fl & 1) != 0)
        E.oblige(s, True if conerr else (fl & 1) == 0, 'postcondition', 'a separate error pipe is either wanted or not')
        if not ob_kinds(E, s, rd, ['w', 'w'] + (['w'] if conerr else []) + ['eof'], 'the message names the pipes'):
            continue
        V = View(E, 'winpty_s', o.v)
        for i, m in enumerate(('coninPipeName', 'conoutPipeName', 'conerrPipeName')):
            q = V.seq(s, m)
            if i == 2 and not conerr:
                E.oblige(s, bv(q.len, 64) == 0, 'postcondition', 'no error pipe without the flag')
                continue
            it = rd[i]
            E.oblige(s, z3.And(bv(q.len, 64) == it[1], z3.Implies(z3.ULT(k, it[1]), bv(farrs_of(E, s, q)[0].read(k), 16) == bv(it[2].read(k), 16))), 'postcondition', '%s is the name sent' % m)
        q = V.seq(s, 'spawnDesktopName')
        pc = pieces_of(E, s, V.p('spawnDesktopName'))
        if s.ghost['desk']:
            named = E.must(s, bv(s.ghost['dlen'], 64) != 0)
            E.oblige(s, pc == (('id', 'current desktop'),) if named else bv(q.len, 64) == 0, 'postcondition', 'children are placed back onto the caller\'s desktop')
        else:
            E.oblige(s, bv(q.len, 64) == 0, 'postcondition', 'children inherit the desktop')


def unit_session(ctx):
    """createAgentSession: pipe, agent and connection are set up in order and belong together"""
    E, st, W0 = session(ctx, [OH])
    builder(E)
    crit(E)
    oom(E)
    g(st, bad=False, log=())
    misuse(E, lambda s: z3.BoolVal(False))
    C = new_object(E, st, 'winpty_config_s', 'cfg')
    tmo = bv(C.get(st, 'timeoutMs'), 32)
    D, P = E.new_cells(st, 32, 'desktop'), E.new_cells(st, 32, 'params')
    for p, n in ((D, 'desktop'), (P, 'params')):
        text(E, st, p, (('id', n),), n, True)
    cf, pid = z3.BitVec('creationFlags', 32), z3.BitVec('pid', 32)

    def step(name, fn):
        def f(E, s, a, ci):
            b = s.copy()
            g(b, bad=True)
            E.oblige(s, set(NEEDS.get(name, ())) <= set(s.ghost['log']) and name not in s.ghost['log'], 'precondition', name + ' happens once, after ' + (', '.join(NEEDS.get(name, ())) or 'anything'))
            g(s, log=s.ghost['log'] + (name,))
            fn(E, s, a)
            return Outs([(s, Ret(None)), xthrow(E, b, WINEXC, 'unspecified')])
        return f
    STEPS = ('event', 'pipe', 'agent', 'connect', 'verify')
    NEEDS = {'agent': ('pipe',), 'connect': ('event', 'pipe', 'agent'), 'verify': ('connect',)}
    ret = lambda h: lambda E, s, a: View(E, 'OwnedHandle', a[0]).set(s, 'm_h', Ptr(0, h))
    contract(E, r'^createEvent\(', step('event', ret(H_EVENT)), 'createEvent (unit createEvent)')
    handler(E, r'^GenRandom::(GenRandom|~GenRandom)\(', lambda E, s, a, ci: None, 'GenRandom')
    handler(E, r'^GenRandom::uniqueName\(', lambda E, s, a, ci: (text(E, s, a[0], (('id', 'unique'),), 'unique'), None)[1], 'GenRandom::uniqueName: a fresh name (property N02)')
    PN = [('lit', '\\\\.\\pipe\\winpty-control-'), ('id', 'unique')]

    def pipe(E, s, a):
        same_pieces(E, s, pieces_of(E, s, a[1]), PN, 'the pipe has a fresh name')
        ret(H_PIPE)(E, s, a)
    contract(E, r'^createControlPipe\(', step('pipe', pipe), 'createControlPipe: a pipe of that name (unit createControlPipe)')

    def agent(E, s, a):
        same_pieces(E, s, pieces_of(E, s, a[2]), PN, 'the agent is told the name of the pipe')
        E.oblige(s, pieces_of(E, s, a[1]) == (('id', 'desktop'),) and pieces_of(E, s, a[3]) == (('id', 'params'),), 'precondition', 'the desktop and parameters given')
        E.oblige(s, bv(a[4], 32) == cf, 'precondition', 'the creation flags given')
        E.store_raw(s, a[5], pid, 4)
        ret(H_AGENT)(E, s, a)
    contract(E, r'^startAgentProcess\(', step('agent', agent), 'startAgentProcess: a new agent and its id (unit startAgentProcess)')

    def connect(E, s, a):
        V = View(E, 'winpty_s', a[0])
        hh = lambda m: hv(View(E, 'OwnedHandle', V.p(m)).get(s, 'm_h', True))
        E.oblige(s, z3.And(hh('controlPipe') == H_PIPE, hh('agentProcess') == H_AGENT, hh('ioEvent') == H_EVENT), 'precondition', 'the session knows its pipe, agent and event before it waits')
        E.oblige(s, bv(V.get(s, 'agentTimeoutMs'), 32) == tmo, 'precondition', 'the wait for the agent is limited by the configured time')
    contract(E, r'^connectControlPipe\(', step('connect', connect), 'connectControlPipe (unit connectControlPipe)')

    def verify(E, s, a):
        E.oblige(s, z3.And(hv(a[0]) == H_PIPE, bv(a[1], 32) == pid), 'precondition', 'the client of the pipe is checked against the agent started')
    contract(E, r'^verifyPipeClientPid\(', step('verify', verify), 'verifyPipeClientPid (unit verifyPipeClientPid)')
    r = E.new_cells(st, 8, 'ret')
    E.merge = False
    E.targets.append('createAgentSession')
    for s, o in E.exec_fn(st, E.find_fn(r'^createAgentSession\('), [r, C.ptr, D, P, cf]):
        n = len([x for x in s.ghost['log'] if x in ('event', 'pipe', 'agent')])
        if isinstance(o, Throw):
            E.oblige(s, len(s.ghost['closed']) == n, 'postcondition', 'a failure closes what was opened')
            E.oblige(s, not any(ob.alive and ob.tag == 'heap' for ob in s.mem.values() if ob.name == 'heap'), 'postcondition', 'a failure leaves no session behind')
        elif isinstance(o, Ret):
            E.oblige(s, set(s.ghost['log']) == set(STEPS) and s.ghost['closed'] == (), 'postcondition', 'a session is returned when every step succeeded')
            p = E.load_raw(s, r, 8, ('ptr',))
            V = View(E, 'winpty_s', p)
            E.oblige(s, bv(V.get(s, 'agentTimeoutMs'), 32) == tmo, 'postcondition', 'the configured time limit is kept')
            for m in ('spawnDesktopName', 'coninPipeName', 'conoutPipeName', 'conerrPipeName'):
                E.oblige(s, bv(V.seq(s, m).len, 64) == 0, 'postcondition', 'no names yet')


def unit_create_pipe(ctx):
    """createControlPipe, createEvent: exclusive, local, protected"""
    E, st, W = session(ctx, [OH])
    oom(E)
    g(st, bad=False, log=())
    n = E.new_cells(st, 32, 'name')
    L = z3.BitVec('name.len', 64)
    st.assume(z3.ULE(L, 1 << 30))
    f = FArr.base(16, 'name').set(L, 0)
    seq_put(E, st, n, new_seq(E, st, 'wchar_t', L, {0: f}, isstr=True, name='name'))
    rej = z3.BitVec('rejectRemote', 32)
    sdp = Ptr(0, z3.BitVec('sd', 64))

    def sd(E, s, a, ci):
        b = s.copy()
        g(b, bad=True)
        g(s, sd=a[0].oid)
        return Outs([(s, Ret(None)), xthrow(E, b, WINEXC, 'unspecified')])
    handler(E, r'^createPipeSecurityDescriptorOwnerFullControl\(', sd, 'createPipeSecurityDescriptorOwnerFullControl (unit of property N02), or it fails')
    handler(E, r'^SecurityItem<SecurityDescriptorTag>::get\(', lambda E, s, a, ci: sdp, 'SecurityItem::get')
    handler(E, r'^SecurityItem<SecurityDescriptorTag>::operator bool', lambda E, s, a, ci: hv(sdp) != 0, 'SecurityItem')

    def dtor(E, s, a, ci):
        g(s, sd=None)
    handler(E, r'^SecurityItem<SecurityDescriptorTag>::~SecurityItem', dtor, 'SecurityItem')
    handler(E, r'^rejectRemoteClientsPipeFlag\(', lambda E, s, a, ci: rej, 'rejectRemoteClientsPipeFlag (unit of property N02)')

    def create(E, s, a, ci):
        src, i0 = src_range(E, s, a[0], L + 1, 2)
        E.oblige(s, z3.Implies(z3.ULE(k, L), bv(src.read(add64(i0, k)), 16) == bv(f.read(k), 16)), 'precondition', 'the name given')
        E.oblige(s, bv(a[1], 32) == (0x3 | 0x80000 | 0x40000000), 'precondition', 'the first instance of its name, both ways, overlapped')
        E.oblige(s, bv(a[2], 32) == rej, 'precondition', 'remote clients are refused where possible')
        E.oblige(s, bv(a[3], 32) == 1, 'precondition', 'a single instance')
        sa = a[7]
        E.oblige(s, sa.oid != 0, 'precondition', 'protected by a security descriptor')
        if sa.oid:
            E.oblige(s, z3.And(bv(E.load_raw(s, sa, 4, None), 32) == 24, hv(E.load_raw(s, padd(sa, 8), 8, ('ptr',))) == hv(sdp), bv(E.load_raw(s, padd(sa, 16), 4, None), 32) == 0, hv(sdp) != 0), 'precondition', 'the owner\'s descriptor, not inherited')
            E.oblige(s, s.ghost.get('sd') is not None, 'precondition', 'the descriptor still exists')
        b = s.copy()
        g(b, bad=True)
        g(s, log=('pipe',))
        return Outs([(s, Ret(Ptr(0, H_PIPE))), (b, Ret(Ptr(0, 2 ** 64 - 1)))])
    handler(E, r'^CreateNamedPipeW$', create, 'CreateNamedPipeW: the pipe, or INVALID_HANDLE_VALUE')
    r = E.new_cells(st, 8, 'ret')
    E.targets += ['createControlPipe', 'createEvent']
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^createControlPipe\('), [r, n]):
        E.oblige(s, s.ghost.get('sd') is None, 'postcondition', 'the descriptor is released')
        if isinstance(o, Ret):
            E.oblige(s, s.ghost['log'] == ('pipe',) and hv(View(E, 'OwnedHandle', r).get(s, 'm_h', True)) == H_PIPE, 'postcondition', 'the pipe created is returned')
        elif isinstance(o, Throw):
            E.oblige(s, z3.Or(z3.BoolVal(bool(s.ghost['bad'])), hv(sdp) == 0), 'postcondition', 'fails only if the system does')

    def event(E, s, a, ci):
        E.oblige(s, z3.And(hv(a[0]) == 0, bv(a[1], 32) != 0, bv(a[2], 32) == 0, hv(a[3]) == 0), 'precondition', 'a nameless manual-reset event, not set')
        b = s.copy()
        return Outs([(s, Ret(Ptr(0, H_EVENT))), (b, Ret(Ptr(0, 0)))])
    handler(E, r'^CreateEventW$', event, 'CreateEventW')
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^createEvent\('), [r]):
        if isinstance(o, Ret):
            E.oblige(s, hv(View(E, 'OwnedHandle', r).get(s, 'm_h', True)) == H_EVENT, 'postcondition', 'the event created is returned')


def unit_verify_client(ctx):
    """verifyPipeClientPid: a client other than the agent is refused"""
    E, st, W = session(ctx, [OH])
    builder(E)
    E.oomb = False
    pid, cpid, res = z3.BitVec('agentPid', 32), z3.BitVec('clientPid', 32), z3.BitVec('result', 32)
    vals = {}
    for n in ('Success', 'Failure', 'UnsupportedOs'):
        x = re.findall(r'!DIEnumerator\(name: "%s", value: (-?\d+)' % n, E.ctx.module(WP).text())
        if not x:
            raise Unsupported('enumerator not found')
        vals[n] = int(x[0])
    st.assume(z3.Or(*[res == v for v in vals.values()]))

    def client(E, s, a, ci):
        E.oblige(s, hv(a[1]) == H_PIPE, 'precondition', 'the client of this pipe')
        # std::tuple<result, pid, error>: stored last to first
        E.store_raw(s, a[0], fresh('err', 32), 4)
        E.store_raw(s, padd(a[0], 4), cpid, 4)
        E.store_raw(s, padd(a[0], 8), res, 4)
    handler(E, r'^getNamedPipeClientProcessId\(', client, 'getNamedPipeClientProcessId: the client\'s process, unsupported or failed')
    handler(E, r'^throwWinptyException\(', lambda E, s, a, ci: Outs([xthrow(E, s, WINEXC, 'unspecified')]), 'throwWinptyException throws')
    E.targets.append('verifyPipeClientPid')
    E.inputs.update(agentPid=pid, clientPid=cpid, result=res)
    for s, o in E.exec_fn(st, E.find_fn(r'^verifyPipeClientPid\('), [Ptr(0, H_PIPE), pid]):
        if isinstance(o, Ret):
            E.oblige(s, z3.Or(res == vals['UnsupportedOs'], z3.And(res == vals['Success'], cpid == pid)), 'postcondition', 'the client is the agent, unless the system cannot tell')
        elif isinstance(o, Throw):
            E.oblige(s, z3.Or(res == vals['Failure'], z3.And(res == vals['Success'], cpid != pid)), 'postcondition', 'the agent itself is not refused')


def unit_start_agent(ctx):
    """startAgentProcess: the command line names the program, the pipe and the parameters"""
    E, st, W = session(ctx, [OH])
    builder(E)
    g(st, bad=False, log=())
    misuse(E, lambda s: z3.BoolVal(False))
    D, N, P = (E.new_cells(st, 32, n) for n in ('desktop', 'pipeName', 'params'))
    dq = text(E, st, D, (('id', 'desktop'),), 'desktop', True)
    for p, n in ((N, 'pipe'), (P, 'params')):
        text(E, st, p, (('id', n),), n, True)
    cf, pid = z3.BitVec('creationFlags', 32), z3.BitVec('pid', 32)

    def exe(E, s, a, ci):
        b = s.copy()
        g(b, bad=True)
        text(E, s, a[0], (('id', 'program'),), 'program')
        return Outs([(s, Ret(None)), xthrow(E, b, LIBEXC, w32(ERR['EXE']))])
    handler(E, r'^findAgentProgram\(', exe, 'findAgentProgram: the agent beside the library (unit findAgentProgram), or it is missing')
    handler(E, r'^hasDebugFlag\(', lambda E, s, a, ci: fresh('dbg', 1), 'hasDebugFlag: any')
    handler(E, r'^GetEnvironmentVariableA$', lambda E, s, a, ci: fresh('env', 32), 'GetEnvironmentVariable: any')

    def vec(E, s, a, ci):
        q = seq_get(E, s, a[1])
        n = bv(q.len, 64) + 1
        o = new_seq(E, s, 'wchar_t', n, {0: farrs_of(E, s, q)[0]}, name='copy')
        seq_put(E, s, a[0], o)
        g(s, **{'pc:%s' % o.oid: pieces_of(E, s, a[1]), 'vq:%s' % o.oid: q.oid})
        return None
    contract(E, r'^vector<wchar_t> vectorWithNulFromString<wchar_t>', vec, 'vectorWithNulFromString: the string and a null (property D02)')

    def create(E, s, a, ci):
        fo = lambda p: s.ghost.get('pc:%s' % p.oid, ())
        same_pieces(E, s, fo(a[0]), [('id', 'program')], 'the agent program is started')
        same_pieces(E, s, fo(a[1]), [('lit', '"'), ('id', 'program'), ('lit', '" '), ('id', 'pipe'), ('lit', ' '), ('id', 'params')], 'the command line is the program, the pipe and the parameters')
        E.oblige(s, ('vq:%s' % a[1].oid) in s.ghost, 'precondition', 'the command line may be written to')
        E.oblige(s, z3.And(hv(a[2]) == 0, hv(a[3]) == 0, bv(a[4], 32) == 0, bv(a[5], 32) == cf, hv(a[6]) == 0, hv(a[7]) == 0), 'precondition', 'nothing is inherited by the agent')
        sui = a[8]
        lp = E.load_raw(s, padd(sui, 16), 8, ('ptr',))
        E.oblige(s, z3.And(bv(dq.len, 64) == 0, hv(lp) == 0) if lp.oid == 0 else z3.And(bv(dq.len, 64) != 0, z3.BoolVal(fo(lp) == (('id', 'desktop'),))), 'precondition', 'the agent is placed on the desktop given')
        f2, sw = bv(E.load_raw(s, padd(sui, 60), 4, None), 32), bv(E.load_raw(s, padd(sui, 64), 2, None), 16)
        E.oblige(s, z3.And(bv(E.load_raw(s, sui, 4, None), 32) == 104, z3.Or(f2 == 0, z3.And(f2 == 1, sw == 0))), 'precondition', 'its window is hidden or the default')
        b = s.copy()
        g(b, bad=True, failed=True)
        E.store_raw(s, a[9], Ptr(0, H_AGENT), 8)
        E.store_raw(s, padd(a[9], 8), Ptr(0, H_EVENT), 8)
        E.store_raw(s, padd(a[9], 16), pid, 4)
        ok = fresh('ok', 32)
        s.assume(ok != 0)
        g(s, log=('created',))
        return Outs([(s, Ret(ok)), (b, Ret(0))])
    handler(E, r'^CreateProcessW$', create, 'CreateProcessW')

    def close(E, s, a, ci):
        E.oblige(s, hv(a[0]) == H_EVENT, 'precondition', 'only the thread handle is closed')
        g(s, log=s.ghost['log'] + ('closed',))
        return 1
    handler(E, r'^CloseHandle$', close, 'CloseHandle')
    r, pp = E.new_cells(st, 8, 'ret'), E.new_cells(st, 4, 'agentPid')
    E.targets.append('startAgentProcess')

    def libx(E, s, a, ci):
        g(s, newcode=bv(a[1], 32))
        return Outs([(s, Ret(None)), xthrow(E, s.copy(), BADALLOC, 'oom')])
    handler(E, r'^LibWinptyException::LibWinptyException\(unsigned long, wchar_t const\*\)', libx, 'LibWinptyException(code, message) (unit exceptions)')
    for s, o in E.exec_fn(st, E.find_fn(r'^startAgentProcess\('), [r, D, N, P, cf, pp]):
        if isinstance(o, Ret):
            E.oblige(s, s.ghost['log'] == ('created', 'closed'), 'postcondition', 'one process is created and its thread handle closed')
            E.oblige(s, z3.And(hv(View(E, 'OwnedHandle', r).get(s, 'm_h', True)) == H_AGENT, bv(E.load_raw(s, pp, 4, None), 32) == pid), 'postcondition', 'the agent\'s process and id are returned')
        elif isinstance(o, Throw):
            E.oblige(s, bool(s.ghost['bad']) or s.ghost['exc'] == 'oom', 'postcondition', 'fails only if the system does')
            if s.ghost.get('failed') and not isinstance(s.ghost['exc'], str):
                E.oblige(s, s.ghost['exc'] == ERR['AGENT'], 'postcondition', 'a failure to start the agent is told from other failures')
