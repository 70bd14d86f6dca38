from unixad import *

UTIL, OUTH, INH = unix('Util.cc'), unix('OutputHandler.cc'), unix('InputHandler.cc')
SRCS = [UTIL, OUTH, INH]
EINTR = 4
i32 = lambda v: z3.BitVecVal(v, 32)


def h_assert(E, st, args, ci):
    E.oblige(st, False, 'assertion', 'assert() holds')
    return NoReturn()


def errno_cell(E, st):
    p = E.new_cells(st, 4, 'errno')
    E.store_raw(st, p, z3.BitVec('errno0', 32), 4)
    handler(E, r'^__errno_location$', lambda E, s, a, ci: p, 'errno is a thread-local int')
    return p


def unit_writeall(ctx):
    E = ctx.mk([UTIL])
    st = State()
    size = z3.BitVec('size', 64)
    E.inputs['size'] = size
    st.assume(z3.ULE(size, 1 << 40))
    buf = E.new_arr(st, 1, {0: 1}, size, 'buffer')
    ep = errno_cell(E, st)
    fd = z3.BitVec('fd', 32)
    g(st, W=w64(0), fatal=z3.BoolVal(False))
    handler(E, r'^__assert_fail$', h_assert, False)

    def h_write(E, s, args, ci):
        n, W = bv(args[2], 64), s.ghost['W']
        p = args[1]
        E.oblige(s, bv(args[0], 32) == fd, 'precondition', 'the bytes go to the given descriptor')
        E.oblige(s, z3.And(bv(p.off, 64) == W, True) if p.oid == buf.oid else False, 'precondition', 'each write continues exactly where the previous one ended')
        E.oblige(s, z3.And(z3.UGT(n, 0), z3.ULE(n, size - W)), 'memory', 'no byte past the block is written')
        E.oblige(s, z3.Not(s.ghost['fatal']), 'postcondition', 'no write after a real failure')
        out = []
        r = fresh('ret', 64)
        a = s.copy()
        a.assume(z3.And(z3.UGT(r, 0), z3.ULE(r, n), z3.ULE(r, w64(0x7ffff000))))
        g(a, W=W + r)
        out.append((a, Ret(r)))
        b = s.copy()
        e = fresh('errno', 32)
        b.assume(z3.And(e > 0, e < 4096))
        E.store_raw(b, ep, e, 4)
        g(b, fatal=e != EINTR)
        out.append((b, Ret(w64(2 ** 64 - 1))))
        c = s.copy()
        g(c, fatal=z3.BoolVal(True))
        out.append((c, Ret(w64(0))))
        return Outs(out)
    handler(E, r'^write$', h_write, 'POSIX write(2): -1 with errno, 0, or 1..n bytes taken from the front (at most 0x7ffff000)')
    E.loops = [LoopSpec('writeAll loop', lambda c: [('what was counted is what was taken', bv(c['written'], 64) == c.st.ghost['W']),
                                                    ('within the block', z3.ULE(c.st.ghost['W'], size)), ('no failure so far', z3.Not(c.st.ghost['fatal']))],
                        fn=r'writeAll', vars={'written': ('i', 64)})]
    E.targets.append('writeAll')
    for s, o in E.exec_fn(st, E.find_fn(r'^writeAll\('), [fd, buf, size]):
        if isinstance(o, Ret):
            ok = boolv(o.v)
            W = s.ghost['W']
            E.oblige(s, z3.Implies(ok, W == size), 'postcondition', 'success only when every byte was taken')
            E.oblige(s, z3.Implies(z3.Not(ok), s.ghost['fatal']), 'postcondition', 'failure only on a real error (not on interruption or a partial write)')


def unit_writestr(ctx):
    E = ctx.mk([UTIL])
    st = State()
    n = z3.BitVec('len', 64)
    st.assume(z3.ULE(n, 1 << 30))
    p = E.new_arr(st, 1, {0: 1}, n + 1, 'str', {0: FArr.base(8, 'str').set(n, 0)})
    E.fn_overrides['cstrlen'] = lambda E, s, q, e: n
    g(st, calls=0)
    res = z3.BitVec('res', 1)

    def c_wa(E, s, args, ci):
        E.oblige(s, bv(args[0], 32) == 7, 'precondition', 'same descriptor')
        E.oblige(s, args[1].oid == p.oid and E.must(s, bv(args[1].off, 64) == 0), 'precondition', 'the string from its start')
        E.oblige(s, bv(args[2], 64) == n, 'precondition', 'the whole string without its terminator')
        g(s, calls=s.ghost['calls'] + 1)
        return res == 1
    contract(E, r'^writeAll\(', c_wa, 'writeAll: all bytes in order, or false')
    for s, o in E.exec_fn(st, E.find_fn(r'^writeStr\('), [7, p]):
        E.oblige(s, s.ghost['calls'] == 1, 'postcondition', 'written once')
        E.oblige(s, boolv(o.v) == (res == 1), 'postcondition', 'the result is reported')


def unit_output(ctx):
    """OutputHandler::threadProc: every byte read from the pipe goes to the descriptor once, in order"""
    E = ctx.mk([OUTH])
    st = State()
    H = new_object(E, st, 'OutputHandler', 'handler')
    wake = E.new_cells(st, 64, 'wakeup')
    H.set(st, 'm_conout', Ptr(0, 0x40))
    H.set(st, 'm_outputfd', z3.BitVec('fd', 32))
    H.set(st, 'm_completionWakeup', wake)
    H.set(st, 'm_threadCompleted', 0)
    # R bytes read, W bytes handed to writeAll; S(i) is the i-th byte of the stream
    S = FArr.base(8, 'stream')
    g(st, R=w64(0), W=w64(0), end=z3.BoolVal(False), woken=0)
    k = z3.BitVec('k', 64)

    def h_read(E, s, args, ci):
        n = bv(args[2], 32)
        R = s.ghost['R']
        E.oblige(s, hv(args[0]) == 0x40, 'precondition', 'reads the console output pipe')
        E.oblige(s, R == s.ghost['W'], 'precondition', 'everything read so far was forwarded before reading on')
        E.oblige(s, z3.Not(s.ghost['end']), 'postcondition', 'no read after the end')
        o = E.getobj(s, args[1], 'write')
        E.inb_sym(s, o, args[1].off, z3.ZeroExt(32, n), 'write')
        E.oblige(s, args[4].oid == 0 and args[4].off == 0, 'precondition', 'synchronous read')
        out = []
        a = s.copy()
        m = fresh('numRead', 32)
        a.assume(z3.And(z3.UGE(m, 1), z3.ULE(m, n)))
        w = E.wobj(a, args[1])
        base = divmod_lin(args[1].off, 1)[0]
        f = w.fields[0]
        w.fields = dict(w.fields)
        w.fields[0] = (f[0], f[1].copy(base, z3.ZeroExt(32, m), S, R))
        E.store_raw(a, args[3], m, 4)
        g(a, R=R + z3.ZeroExt(32, m))
        out.append((a, Ret(1)))
        b = s.copy()
        E.store_raw(b, args[3], 0, 4)
        g(b, end=z3.BoolVal(True))
        out.append((b, Ret(fresh('okEof', 32))))
        return Outs(out)
    handler(E, r'^ReadFile$', h_read, 'ReadFile: the next bytes of the pipe, or the end')
    handler(E, r'^GetLastError$', lambda E, s, a, ci: fresh('err', 32), 'GetLastError returns any code')

    def c_wa(E, s, args, ci):
        n, W = bv(args[2], 64), s.ghost['W']
        E.oblige(s, bv(args[0], 32) == z3.BitVec('fd', 32), 'precondition', 'forwards to the descriptor it was given')
        E.oblige(s, z3.ULE(n, s.ghost['R'] - W), 'precondition', 'forwards no more than was read')
        src, i0 = src_range(E, s, args[1], args[2], 1)
        E.oblige(s, z3.Implies(z3.ULT(k, n), bv(src.read(add64(i0, k)), 8) == bv(S.read(W + k), 8)), 'precondition', 'forwards the bytes of the pipe, in order')
        a = s.copy()
        g(a, W=W + n)
        b = s.copy()
        g(b, end=z3.BoolVal(True))
        return Outs([(a, Ret(1)), (b, Ret(0))])
    contract(E, r'^writeAll\(', c_wa, 'writeAll: all bytes in order, or false')

    def h_set(E, s, args, ci):
        E.oblige(s, args[0].oid == wake.oid, 'precondition', 'signals its own wakeup')
        E.oblige(s, bv(H.get(s, 'm_threadCompleted'), 32) != 0, 'postcondition', 'completion is recorded before it is signalled')
        g(s, woken=s.ghost['woken'] + 1)
    handler(E, r'^WakeupFd::set\(', h_set, 'WakeupFd::set wakes the main thread')
    E.loops = [LoopSpec('output loop', lambda c: [('forwarded all that was read', c.st.ghost['R'] == c.st.ghost['W']), ('not ended', z3.Not(c.st.ghost['end']))], fn=r'OutputHandler::threadProc')]
    E.loops[0].pred = loop_calls(r'^ReadFile')
    for s, o in E.exec_fn(st, E.find_fn(r'^OutputHandler::threadProc\(\)'), [H.ptr]):
        if isinstance(o, Ret):
            E.oblige(s, s.ghost['end'], 'postcondition', 'stops only at the end of the pipe or when the descriptor fails')
            E.oblige(s, s.ghost['woken'] == 1, 'postcondition', 'completion is signalled once')


def unit_input(ctx):
    """InputHandler::threadProc: every byte read from the terminal goes to the pipe once, in order"""
    E = ctx.mk([INH])
    st = State()
    H = new_object(E, st, 'InputHandler', 'handler')
    wake = E.new_cells(st, 64, 'wakeup')
    H.set(st, 'm_conin', Ptr(0, 0x44))
    H.set(st, 'm_inputfd', z3.BitVec('fd', 32))
    fd, wfd = z3.BitVec('fd', 32), z3.BitVec('wfd', 32)
    st.assume(z3.And(fd >= 0, fd < 1024, wfd >= 0, wfd < 1024, fd != wfd))
    H.set(st, 'm_completionWakeup', wake)
    H.set(st, 'm_threadCompleted', 0)
    ep = errno_cell(E, st)
    S = FArr.base(8, 'stream')
    g(st, R=w64(0), W=w64(0), end=z3.BoolVal(False), woken=0, ready=z3.BoolVal(False))
    k = z3.BitVec('k', 64)
    E.fn_overrides['lazyload'] = None
    hs = H.lay['m_shouldShutdown']

    def h_reset(E, s, args, ci):
        # another thread may ask for shutdown at any time
        E.store_raw(s, Ptr(H.ptr.oid, hs[0]), fresh('shouldShutdown', 8 * hs[1]), hs[1])
        return None
    handler(E, r'^WakeupFd::reset\(', h_reset, 'WakeupFd::reset; the shutdown request may arrive at any time')
    handler(E, r'^WakeupFd::fd\(', lambda E, s, a, ci: wfd, 'WakeupFd::fd')
    handler(E, r'std::max<int>', lambda E, s, a, ci: h_minmax(E, s, a, ci), 'std::max')

    def h_select(E, s, args, ci):
        o = E.getobj(s, args[2], 'write')
        n = 128
        w = E.wobj(s, args[2])
        E.carve(w, args[2].off, n) if w.kind == 'cells' else None
        for i in range(16):
            E.store_raw(s, Ptr(args[2].oid, args[2].off + 8 * i), fresh('fdset', 64), 8)
        g(s, ready=z3.BoolVal(True))
        return None
    contract(E, r'^selectWrapper\(', h_select, 'selectWrapper: waits, then any subset of the descriptors is ready')

    def h_read(E, s, args, ci):
        n = bv(args[2], 64)
        R = s.ghost['R']
        E.oblige(s, bv(args[0], 32) == fd, 'precondition', 'reads the terminal')
        E.oblige(s, R == s.ghost['W'], 'precondition', 'everything read so far was forwarded before reading on')
        o = E.getobj(s, args[1], 'write')
        E.inb_sym(s, o, args[1].off, n, 'write')
        out = []
        a = s.copy()
        m = fresh('numRead', 64)
        a.assume(z3.And(z3.UGE(m, 1), z3.ULE(m, n), z3.ULE(m, w64(0x7ffff000))))
        w = E.wobj(a, args[1])
        f = w.fields[0]
        w.fields = dict(w.fields)
        w.fields[0] = (f[0], f[1].copy(divmod_lin(args[1].off, 1)[0], m, S, R))
        g(a, R=R + m)
        out.append((a, Ret(m)))
        b = s.copy()
        e = fresh('errno', 32)
        E.store_raw(b, ep, e, 4)
        g(b, end=e != EINTR)
        out.append((b, Ret(w64(2 ** 64 - 1))))
        c = s.copy()
        g(c, end=z3.BoolVal(True))
        out.append((c, Ret(w64(0))))
        return Outs(out)
    handler(E, r'^read$', h_read, 'POSIX read(2): the next bytes, 0 at the end, or -1 with errno')
    handler(E, r'^GetLastError$', lambda E, s, a, ci: fresh('err', 32), 'GetLastError returns any code')

    def h_wf(E, s, args, ci):
        n, W = bv(args[2], 32), s.ghost['W']
        n64 = z3.ZeroExt(32, n)
        E.oblige(s, hv(args[0]) == 0x44, 'precondition', 'writes to the console input pipe')
        E.oblige(s, n64 == s.ghost['R'] - W, 'precondition', 'forwards exactly what was read')
        src, i0 = src_range(E, s, args[1], n64, 1)
        E.oblige(s, z3.Implies(z3.ULT(k, n64), bv(src.read(add64(i0, k)), 8) == bv(S.read(W + k), 8)), 'precondition', 'forwards the bytes read, in order')
        E.oblige(s, args[4].oid == 0 and args[4].off == 0, 'precondition', 'synchronous write')
        a = s.copy()
        E.store_raw(a, args[3], n, 4)
        g(a, W=W + n64)
        b = s.copy()
        E.store_raw(b, args[3], fresh('part', 32), 4)
        g(b, end=z3.BoolVal(True))
        return Outs([(a, Ret(1)), (b, Ret(0))])
    handler(E, r'^WriteFile$', h_wf, 'WriteFile on a byte-mode pipe: all bytes, or failure')

    def h_set(E, s, args, ci):
        E.oblige(s, args[0].oid == wake.oid, 'precondition', 'signals its own wakeup')
        E.oblige(s, bv(H.get(s, 'm_threadCompleted'), 32) != 0, 'postcondition', 'completion is recorded before it is signalled')
        g(s, woken=s.ghost['woken'] + 1)
    handler(E, r'^WakeupFd::set\(', h_set, 'WakeupFd::set wakes the main thread')
    E.loops = [LoopSpec('input loop', lambda c: [('forwarded all that was read', c.st.ghost['R'] == c.st.ghost['W']), ('not ended', z3.Not(c.st.ghost['end']))], fn=r'InputHandler::threadProc')]
    E.loops[0].pred = loop_calls(r'^WriteFile')
    for s, o in E.exec_fn(st, E.find_fn(r'^InputHandler::threadProc\(\)'), [H.ptr]):
        if isinstance(o, Ret):
            E.oblige(s, z3.Or(s.ghost['end'], bv(H.get(s, 'm_shouldShutdown'), 8 * hs[1]) != 0), 'postcondition', 'stops only at the end of input, on failure, or when asked to')
            E.oblige(s, s.ghost['R'] == s.ghost['W'], 'postcondition', 'nothing read is left behind') if False else None
            E.oblige(s, s.ghost['woken'] == 1, 'postcondition', 'completion is signalled once')


UNITS = [('writeAll', unit_writeall), ('writeStr', unit_writestr), ('OutputHandler', unit_output), ('InputHandler', unit_input)]
HARNESS = ['h_v01']
RULE = 'harness: scripted partial writes, interruptions, failures and ends of file for writeAll and both forwarding loops; distinct = scripts by hash'
