from common import *

SRC = 'src/agent/NamedPipe.cc'
OH = 'src/shared/OwnedHandle.cc'
SRCS = [SRC, OH]
INCOMPLETE, IO_PENDING, PIPE_CONNECTED = 996, 997, 535
KIO = 64 * 1024
BIG = 1 << 40
w64 = lambda v: z3.BitVecVal(v, 64)


def g(st, **kw):
    st.ghost = dict(st.ghost)
    st.ghost.update(kw)


class Pipe:
    """a NamedPipe object and its ghost streams.
    tx: everything written by the caller (txn bytes), of which txs were handed to the OS;
    rx: everything the OS delivered (osn bytes), of which rd were taken by the reader.
    K is an arbitrary stream position: what is shown for K holds for all."""

    def __init__(self, E, st, mode=3):
        self.E = E
        self.V = new_object(E, st, 'NamedPipe', 'pipe')
        self.ptr = self.V.ptr
        self.K = z3.BitVec('K', 64)
        self.tx, self.rx = FArr.base(8, 'tx'), FArr.base(8, 'rx')
        self.h = z3.BitVec('handle', 64)
        v = lambda n: z3.BitVec(n, 64)
        self.txs0, self.txn0, self.rd0, self.osn0 = v('txs'), v('txn'), v('rd'), v('osn')
        st.assume(z3.And(z3.ULE(self.txs0, self.txn0), z3.ULE(self.txn0, BIG), z3.ULE(self.rd0, self.osn0), z3.ULE(self.osn0, BIG), self.h != 0))
        self.inq, self.outq = FArr.base(8, 'inq'), FArr.base(8, 'outq')
        self.V.set(st, 'm_handle', self.h)
        self.V.set(st, 'm_openMode', mode)
        self.rbs = v('readBufferSize')
        st.assume(z3.ULE(self.rbs, BIG))
        self.V.set(st, 'm_readBufferSize', self.rbs)
        seq_put(E, st, self.V.p('m_inQueue'), new_seq(E, st, 'char', self.osn0 - self.rd0, {0: self.inq.set(self.osn0 - self.rd0, 0)}, True, 'inQueue'))
        seq_put(E, st, self.V.p('m_outQueue'), new_seq(E, st, 'char', self.txn0 - self.txs0, {0: self.outq.set(self.txn0 - self.txs0, 0)}, True, 'outQueue'))
        seq_put(E, st, self.V.p('m_name'), new_seq(E, st, 'wchar_t', 0, {0: FArr.const(16, 0)}, True, 'name'))
        self.V.set(st, 'm_connectEvent', 0)
        self.V.set(st, 'm_inputWorker', NULL)
        self.V.set(st, 'm_outputWorker', NULL)
        g(st, txs=self.txs0, txn=self.txn0, rd=self.rd0, osn=self.osn0, lasterr=z3.BitVec('lasterr0', 32), closed=0, ipend=z3.BoolVal(False), opend=z3.BoolVal(False),
          oserr=z3.BoolVal(False), completed=z3.BoolVal(False), ipsz=w64(0), opsz=w64(0))
        st.assume(self.inqueue_ok(st))
        st.assume(self.outqueue_ok(st))
        E.inputs.update(txs=self.txs0, txn=self.txn0, rd=self.rd0, osn=self.osn0, K=self.K, readBufferSize=self.rbs)

    def inqueue_ok(self, st):
        """the read queue holds exactly what was delivered and not yet taken"""
        gh = st.ghost
        q = self.V.seq(st, 'm_inQueue')
        f = farrs_of(self.E, st, q)[0]
        K = self.K
        return z3.And(bv(q.len, 64) == gh['osn'] - gh['rd'], z3.ULE(gh['rd'], gh['osn']),
                      z3.Implies(z3.And(z3.ULE(gh['rd'], K), z3.ULT(K, gh['osn'])), bv(f.read(K - gh['rd']), 8) == bv(self.rx.read(K), 8)))

    def outqueue_ok(self, st):
        """the write queue holds exactly what was written and not yet handed over"""
        gh = st.ghost
        q = self.V.seq(st, 'm_outQueue')
        f = farrs_of(self.E, st, q)[0]
        K = self.K
        return z3.And(bv(q.len, 64) == gh['txn'] - gh['txs'], z3.ULE(gh['txs'], gh['txn']),
                      z3.Implies(z3.And(z3.ULE(gh['txs'], K), z3.ULT(K, gh['txn'])), bv(f.read(K - gh['txs']), 8) == bv(self.tx.read(K), 8)))

    def in_len(self, st):
        return bv(self.V.seq(st, 'm_inQueue').len, 64)


def win32(E):
    """contracts of the Win32 calls that touch no pipe data"""
    def create_event(E, st, args, ci):
        h = fresh('event', 64)
        st.assume(h != 0)
        return Ptr(0, h)
    handler(E, r'^CreateEventW$', create_event, 'Win32 CreateEventW (succeeds: the caller asserts it)')
    handler(E, r'^(ResetEvent|SetEvent)$', lambda E, st, args, ci: 1, 'Win32 ResetEvent/SetEvent')
    handler(E, r'^GetLastError$', lambda E, st, args, ci: st.ghost['lasterr'], 'Win32 GetLastError')


def make_worker(E, st, P, kind, mem=None):
    """constructed by the real constructor, then put in an arbitrary state"""
    cls = 'InputWorker' if kind == 'i' else 'OutputWorker'
    size = class_size(E, cls)
    p = E.new_cells(st, size, 'worker')
    V = View(E, cls, p)
    base = View(E, 'IoWorker', p)
    for k, v in base.lay.items():
        V.lay.setdefault(k, v)
    buf = sub_array(E, st, V, 'm_buffer', 1, FArr.base(8, 'buffer'))
    o = E.exec_fn(st, E.find_fn(r'NamedPipe::%s::%s\(' % (cls, cls)), [p, P.ptr])
    r = [s for s, x in o if isinstance(x, Ret)]
    if len(r) != 1:
        raise Unsupported('worker constructor')
    return r[0], V, buf


def setup_service(ctx, kind):
    E = ctx.mk(SRCS)
    win32(E)
    st = State()
    P = Pipe(E, st)
    st, W, buf = make_worker(E, st, P, kind)
    P.V.set(st, 'm_inputWorker' if kind == 'i' else 'm_outputWorker', W.ptr)
    pend = z3.Bool('pending')
    cur = z3.BitVec('ioSize', 32)
    c64 = z3.ZeroExt(32, cur)
    W.set(st, 'm_pending', bv(pend, 8))
    W.set(st, 'm_currentIoSize', z3.If(pend, cur, z3.BitVecVal(0, 32)))
    E.inputs.update(pending=bv(pend, 8), ioSize=cur)
    st.assume(z3.And(z3.UGE(cur, 1), z3.ULE(cur, KIO)))
    K = P.K
    evt = W.get(st, 'm_event')
    bufarr = lambda s: s.mem[buf.oid].fields[0][1]
    if kind == 'o':
        # the pending write covers tx[txs-cur, txs), and its bytes are still in the buffer
        g(st, opend=pend, opsz=z3.If(pend, c64, w64(0)), ostart=P.txs0 - c64)
        st.assume(z3.ULE(c64, P.txs0))
        st.assume(buffer_ok(st, P, bufarr))
    else:
        g(st, ipend=pend, ipsz=z3.If(pend, c64, w64(0)))

    def check_over(E, st, ov, what):
        E.oblige(st, isinstance(ov, Ptr) and ov.oid == W.ptr.oid and ov.off == W.lay['m_over'][0], 'precondition', what + ' uses the worker\'s own OVERLAPPED')
        E.oblige(st, not (isinstance(ov, Ptr) and ov.oid in st.mem and not st.mem[ov.oid].alive), 'memory', what + ' OVERLAPPED is alive')

    def deliver(E, st, n):
        a = st.mem[buf.oid].clone()
        a.fields[0] = (1, a.fields[0][1].copy(0, n, P.rx, st.ghost['osn']))
        st.mem[buf.oid] = a
        g(st, osn=st.ghost['osn'] + n)

    def complete(E, st, args, n):
        E.store_raw(st, args, z3.Extract(31, 0, n), 4)
        g(st, completed=z3.BoolVal(True))

    def h_result(E, st, args, ci):
        h, ov, pn, wait = args
        E.oblige(st, hv(h) == P.h, 'precondition', 'the result of this pipe\'s operation is asked for')
        check_over(E, st, ov, 'GetOverlappedResult')
        pk = 'ipend' if kind == 'i' else 'opend'
        E.oblige(st, st.ghost[pk], 'precondition', 'an operation was started and its result not yet taken')
        out = []
        ch = z3.BitVec(fresh_name('outcome'), 2)
        s1, s2, s3 = st.copy(), st.copy(), st.copy()
        s1.assume(ch == 0)
        if kind == 'i':
            n = fresh('actual', 64)
            s1.assume(z3.And(z3.ULE(n, s1.ghost['ipsz']), z3.ULE(s1.ghost['osn'], BIG)))
            deliver(E, s1, n)
            g(s1, ipend=z3.BoolVal(False), ipsz=w64(0))
        else:
            n = s1.ghost['opsz']
            E.oblige(s1, buffer_ok(s1, P, bufarr), 'invariant', 'the data of a pending write is not changed')
            g(s1, opend=z3.BoolVal(False), opsz=w64(0))
        complete(E, s1, pn, n)
        out.append((s1, Ret(1)))
        s2.assume(ch == 1)
        if not (isinstance(wait, int) and wait):
            g(s2, lasterr=z3.BitVecVal(INCOMPLETE, 32))
            out.append((s2, Ret(0)))
        s3.assume(z3.UGE(ch, 2))
        e = fresh('err', 32)
        s3.assume(z3.And(e != INCOMPLETE, e != IO_PENDING))
        g(s3, lasterr=e, oserr=z3.BoolVal(True))
        g(s3, **{pk: z3.BoolVal(False)})
        out.append((s3, Ret(0)))
        return Outs(out)
    handler(E, r'^GetOverlappedResult$', h_result, 'Win32 GetOverlappedResult')

    def h_io(E, st, args, ci):
        rd = ci.dn == 'ReadFile'
        h, p, n, pn, ov = args
        E.oblige(st, rd == (kind == 'i'), 'precondition', 'reading is done by the input side, writing by the output side')
        if rd != (kind == 'i'):
            raise Abort()
        n64 = z3.ZeroExt(32, bv(n, 32))
        E.oblige(st, hv(h) == P.h, 'precondition', 'the operation is on this pipe')
        check_over(E, st, ov, ci.dn)
        E.oblige(st, isinstance(p, Ptr) and p.oid == buf.oid and eq64(p.off, 0) is True, 'precondition', 'the operation uses the worker\'s own buffer from its start')
        E.oblige(st, z3.And(n64 != 0, z3.ULE(n64, KIO)), 'precondition', 'the operation stays inside the buffer and is not empty')
        pk, ps = ('ipend', 'ipsz') if rd else ('opend', 'opsz')
        E.oblige(st, z3.Not(st.ghost[pk]), 'precondition', 'no second operation is started while one is pending')
        hev = E.load_raw(st, Ptr(ov.oid, ov.off + 24), 8, None)
        E.oblige(st, hv(hev) == hv(evt), 'precondition', 'completion is signalled on the worker\'s event')
        if not rd:
            gh = st.ghost
            f = bufarr(st)
            E.oblige(st, z3.ULE(n64, gh['txn'] - gh['txs']), 'postcondition', 'nothing is sent that was not written')
            E.oblige(st, z3.Implies(z3.And(z3.ULE(gh['txs'], K), z3.ULT(K, gh['txs'] + n64)), bv(f.read(K - gh['txs']), 8) == bv(P.tx.read(K), 8)),
                     'postcondition', 'the next unsent bytes are sent, unchanged and in order')
            g(st, ostart=gh['txs'], txs=gh['txs'] + n64)
        out = []
        ch = z3.BitVec(fresh_name('outcome'), 2)
        s1, s2, s3 = st.copy(), st.copy(), st.copy()
        s1.assume(ch == 0)
        if rd:
            m = fresh('actual', 64)
            s1.assume(z3.And(z3.ULE(m, n64), z3.ULE(s1.ghost['osn'], BIG)))
            deliver(E, s1, m)
        else:
            m = n64
        complete(E, s1, pn, m)
        out.append((s1, Ret(1)))
        s2.assume(ch == 1)
        g(s2, lasterr=z3.BitVecVal(IO_PENDING, 32))
        g(s2, **{pk: z3.BoolVal(True), ps: n64})
        out.append((s2, Ret(0)))
        s3.assume(z3.UGE(ch, 2))
        e = fresh('err', 32)
        s3.assume(z3.And(e != INCOMPLETE, e != IO_PENDING))
        g(s3, lasterr=e, oserr=z3.BoolVal(True))
        out.append((s3, Ret(0)))
        return Outs(out)
    handler(E, r'^(ReadFile|WriteFile)$', h_io, 'Win32 ReadFile/WriteFile on a byte-mode pipe (a completed write is complete; a read delivers at most the requested bytes)')
    return E, st, P, W, buf, bufarr, pend


def buffer_ok(st, P, bufarr):
    """while a write is pending the buffer holds the bytes it was started with"""
    gh = st.ghost
    K = P.K
    f = bufarr(st)
    return z3.Implies(gh['opend'], z3.And(gh['opsz'] == gh['txs'] - gh['ostart'], z3.UGE(gh['opsz'], 1), z3.ULE(gh['opsz'], KIO), z3.ULE(gh['ostart'], gh['txs']),
                      z3.Implies(z3.And(z3.ULE(gh['ostart'], K), z3.ULT(K, gh['txs'])), bv(f.read(K - gh['ostart']), 8) == bv(P.tx.read(K), 8))))


ERR, PROG, NOPROG = 1, 2, 0


def result_codes(ctx):
    """the ServiceResult values by name"""
    E = ctx.mk(SRCS)
    m = ctx.module(SRC)
    out = {}
    for l in open(ctx.mods[SRC] if isinstance(ctx.mods[SRC], str) else m.path, errors='replace'):
        mm = re.search(r'DIEnumerator\(name: "(NoProgress|Error|Progress)", value: (-?\d+)', l)
        if mm:
            out[mm.group(1)] = int(mm.group(2))
    if len(out) != 3:
        raise Unsupported('service results')
    return out


def unit_service(kind):
    def unit(ctx):
        RC = result_codes(ctx)
        E, st, P, W, buf, bufarr, pend = setup_service(ctx, kind)
        pk = 'ipend' if kind == 'i' else 'opend'

        def inv(c):
            gh = c.st.ghost
            l = [('no operation is pending', z3.And(z3.Not(gh[pk]), z3.Not(b8(W.get(c.st, 'm_pending'))))),
                 ('read queue', P.inqueue_ok(c.st)), ('write queue', P.outqueue_ok(c.st)),
                 ('progress is reported', (bv(c['progress'], 32) == RC['Progress']) == gh['completed']),
                 ('progress value', z3.Or(bv(c['progress'], 32) == RC['Progress'], bv(c['progress'], 32) == RC['NoProgress'])),
                 ('no error so far', z3.Not(gh['oserr'])), ('range', z3.And(z3.ULE(gh['osn'], BIG + KIO), z3.ULE(gh['txn'], BIG)))]
            return l
        E.loops = [LoopSpec('operations', inv, fn=r'IoWorker::service', vars={'progress': ('i', 32)},
                            decreases=(lambda c: c.st.ghost['txn'] - c.st.ghost['txs']) if kind == 'o' else None)]
        for s, o in E.exec_fn(st, E.find_fn(r'NamedPipe::IoWorker::service\('), [W.ptr]):
            gh = s.ghost
            r = bv(o.v, 32)
            E.oblige(s, (r == RC['Error']) == gh['oserr'], 'postcondition', 'an error is reported exactly when the system reported one')
            ok = r != RC['Error']
            E.oblige(s, z3.Implies(ok, (r == RC['Progress']) == gh['completed']), 'postcondition', 'progress is reported exactly when an operation completed')
            E.oblige(s, P.inqueue_ok(s), 'invariant', 'read queue is what was delivered and not taken')
            E.oblige(s, P.outqueue_ok(s), 'invariant', 'write queue is what was written and not sent')
            E.oblige(s, z3.Implies(ok, b8(W.get(s, 'm_pending')) == gh[pk]), 'invariant', 'a pending operation is remembered')
            E.oblige(s, z3.Implies(gh[pk], b8(W.get(s, 'm_pending'))), 'invariant', 'a pending operation is remembered even on errors')
            E.oblige(s, gh['rd'] == P.rd0, 'frame', 'nothing is taken from the read queue')
            E.oblige(s, gh['txn'] == P.txn0, 'frame', 'nothing is added to the write queue')
            if kind == 'o':
                E.oblige(s, z3.Implies(gh[pk], buffer_ok(s, P, bufarr)), 'invariant', 'the data of a pending write stays in place')
                E.oblige(s, z3.Implies(z3.And(ok, z3.Not(gh[pk])), gh['txs'] == gh['txn']), 'postcondition', 'everything written is handed over unless an operation is pending')
                E.oblige(s, z3.Implies(z3.And(ok, gh[pk]), z3.ZeroExt(32, bv(W.get(s, 'm_currentIoSize'), 32)) == gh['opsz']), 'postcondition', 'the pending size is remembered')
            else:
                E.oblige(s, z3.Implies(z3.And(ok, z3.Not(gh[pk])), z3.UGE(P.in_len(s), P.rbs)), 'postcondition', 'reading goes on until the buffer limit unless an operation is pending')
    return unit


def b8(v):
    return bv(v, 8) != 0


def unit_queue(ctx):
    """the caller's side: write, peek, read, readToString, readAllToString, sizes"""
    K = z3.BitVec('K', 64)

    def fresh_pipe(mode=3):
        E = ctx.mk(SRCS)
        st = State()
        return E, st, Pipe(E, st, mode)
    # write
    E, st, P = fresh_pipe()
    n = z3.BitVec('size', 64)
    E.inputs['size'] = n
    st.assume(z3.ULE(n, BIG))
    data = FArr.base(8, 'data')
    p = E.new_arr(st, 1, {0: 1}, n, 'data', {0: data})
    st.assume(z3.Implies(z3.And(z3.ULE(P.txn0, K), z3.ULT(K, P.txn0 + n)), bv(P.tx.read(K), 8) == bv(data.read(K - P.txn0), 8)))
    for s, o in E.exec_fn(st, E.find_fn(r'^NamedPipe::write\(void const\*, unsigned long long\)'), [P.ptr, p, n]):
        g(s, txn=s.ghost['txn'] + n)
        E.oblige(s, isinstance(o, Ret), 'exception', 'write does not fail')
        E.oblige(s, P.outqueue_ok(s), 'postcondition', 'write appends exactly the data to what is to be sent')
        E.oblige(s, P.inqueue_ok(s), 'frame', 'write leaves the read side alone')
    # write(text)
    E, st, P = fresh_pipe()
    n = z3.BitVec('length', 64)
    st.assume(z3.ULE(n, BIG))
    txt = FArr.base(8, 'text')
    p = E.new_arr(st, 1, {0: 1}, n + 1, 'text', {0: txt.set(n, 0)})
    E.fn_overrides['cstrlen'] = lambda E, st, q, esz: n if q.oid == p.oid else None
    st.assume(z3.Implies(z3.And(z3.ULE(P.txn0, K), z3.ULT(K, P.txn0 + n)), bv(P.tx.read(K), 8) == bv(txt.read(K - P.txn0), 8)))
    for s, o in E.exec_fn(st, E.find_fn(r'^NamedPipe::write\(char const\*\)'), [P.ptr, p]):
        g(s, txn=s.ghost['txn'] + n)
        E.oblige(s, P.outqueue_ok(s), 'postcondition', 'write(text) appends exactly the text')
    # peek, read
    for nm in ('peek', 'read'):
        E, st, P = fresh_pipe()
        n = z3.BitVec('size', 64)
        st.assume(z3.ULE(n, BIG))
        E.inputs['size'] = n
        d = E.new_arr(st, 1, {0: 1}, n, 'out')
        for s, o in E.exec_fn(st, E.find_fn(r'^NamedPipe::%s\(' % nm), [P.ptr, d, n]):
            r = bv(o.v, 64)
            avail = P.osn0 - P.rd0
            E.oblige(s, r == z3.If(z3.ULT(n, avail), n, avail), 'postcondition', nm + ' returns as much as there is, up to the size asked for')
            f = s.mem[d.oid].fields[0][1]
            E.oblige(s, z3.Implies(z3.And(z3.ULE(P.rd0, K), z3.ULT(K, P.rd0 + r)), bv(f.read(K - P.rd0), 8) == bv(P.rx.read(K), 8)), 'postcondition', nm + ' delivers the next bytes in order')
            if nm == 'read':
                g(s, rd=P.rd0 + r)
            E.oblige(s, P.inqueue_ok(s), 'postcondition', nm + (' takes exactly those bytes' if nm == 'read' else ' takes nothing'))
            E.oblige(s, P.outqueue_ok(s), 'frame', nm + ' leaves the write side alone')
    for nm in ('readToString', 'readAllToString'):
        E, st, P = fresh_pipe()
        n = z3.BitVec('size', 64)
        st.assume(z3.ULE(n, BIG))
        E.inputs['size'] = n
        ret = E.new_cells(st, 32, 'result')
        f_ = E.find_fn(r'^NamedPipe::%s' % nm)
        for s, o in E.exec_fn(st, f_, [ret, P.ptr] + ([n] if nm == 'readToString' else [])):
            avail = P.osn0 - P.rd0
            r = z3.If(z3.ULT(n, avail), n, avail) if nm == 'readToString' else avail
            q = seq_get(E, s, ret)
            f = farrs_of(E, s, q)[0]
            E.oblige(s, bv(q.len, 64) == r, 'postcondition', nm + ' returns as much as there is, up to the size asked for')
            E.oblige(s, z3.Implies(z3.And(z3.ULE(P.rd0, K), z3.ULT(K, P.rd0 + r)), bv(f.read(K - P.rd0), 8) == bv(P.rx.read(K), 8)), 'postcondition', nm + ' delivers the next bytes in order')
            g(s, rd=P.rd0 + r)
            E.oblige(s, P.inqueue_ok(s), 'postcondition', nm + ' takes exactly those bytes')
    E, st, P = fresh_pipe()
    for s, o in E.exec_fn(st, E.find_fn(r'^NamedPipe::bytesAvailable'), [P.ptr]):
        E.oblige(s, bv(o.v, 64) == P.osn0 - P.rd0, 'postcondition', 'bytesAvailable counts delivered bytes not yet taken')
    # bytesToSend, with and without a worker and pending write
    for have in (0, 1):
        if have:
            E, st, P, W, buf, bufarr, pend = setup_service(ctx, 'o')
        else:
            E, st, P = fresh_pipe()
        for s, o in E.exec_fn(st, E.find_fn(r'^NamedPipe::bytesToSend'), [P.ptr]):
            E.oblige(s, bv(o.v, 64) == P.txn0 - P.txs0 + s.ghost['opsz'], 'postcondition', 'bytesToSend counts what is queued and what is pending')


def unit_close(ctx):
    """closePipe: every pending operation is finished before its buffer is freed, the handle is closed once"""
    for have in (0, 1, 2, 3):
        E, st, P, W, buf, bufarr, pend = None, None, None, None, None, None, None
        E = ctx.mk(SRCS)
        win32(E)
        st = State()
        P = Pipe(E, st)
        P.h = z3.BitVec('anyhandle', 64)
        E.inputs['handle'] = P.h
        P.V.set(st, 'm_handle', P.h)
        ws = {}
        evs = []
        for k, nm, bit in (('i', 'm_inputWorker', 1), ('o', 'm_outputWorker', 2)):
            if have & bit:
                st, W, b = make_worker(E, st, P, k)
                pend = z3.Bool('pending' + k)
                E.inputs['pending' + k] = bv(pend, 8)
                W.set(st, 'm_pending', bv(pend, 8))
                P.V.set(st, nm, W.ptr)
                # an operation may be remembered although it has ended with an error
                really = z3.Bool('running' + k)
                st.assume(z3.Implies(really, pend))
                g(st, **{k + 'pend': really})
                ws[k] = W
                evs.append(hv(W.get(st, 'm_event')))
        conn = z3.Bool('connecting')
        ce = z3.BitVec('connectEvent', 64)
        st.assume(z3.Implies(conn, ce != 0))
        if have:
            st.assume(z3.Not(conn))
        P.V.set(st, 'm_connectEvent', z3.If(conn, ce, w64(0)))
        E.inputs['connecting'] = bv(conn, 8)
        st.assume(z3.Implies(P.h == 0, z3.Not(conn)))
        if have:
            st.assume(P.h != 0)
        for e in evs:
            st.assume(bv(e, 64) != P.h)
            st.assume(bv(e, 64) != ce)
        if len(evs) == 2:
            st.assume(bv(evs[0], 64) != bv(evs[1], 64))
        st.assume(ce != P.h)
        g(st, cpend=conn, cancelled=z3.BoolVal(False), hclosed=0, nclose=0)

        def h_cancel(E, st, args, ci):
            E.oblige(st, hv(args[0]) == P.h, 'precondition', 'operations of this pipe are cancelled')
            g(st, cancelled=z3.BoolVal(True))
            return fresh('ret', 32)
        handler(E, r'^CancelIo(Ex)?$', h_cancel, 'Win32 CancelIo')

        def h_res(E, st, args, ci):
            h, ov, pn, wait = args
            E.oblige(st, hv(h) == P.h, 'precondition', 'the result of this pipe\'s operation is asked for')
            E.oblige(st, isinstance(wait, int) and wait != 0, 'precondition', 'closing waits for the operation')
            E.oblige(st, st.ghost['cancelled'], 'precondition', 'the operation was cancelled before waiting (no endless wait)')
            hit = False
            for k, W in ws.items():
                if ov.oid == W.ptr.oid and ov.off == W.lay['m_over'][0]:
                    g(st, **{k + 'pend': z3.BoolVal(False)})
                    hit = True
            if ov.oid == P.ptr.oid and ov.off == P.V.lay['m_connectOver'][0]:
                g(st, cpend=z3.BoolVal(False))
                hit = True
            E.oblige(st, hit, 'precondition', 'waits on an operation of this pipe')
            return fresh('ret', 32)
        handler(E, r'^GetOverlappedResult$', h_res, 'Win32 GetOverlappedResult (waiting returns when the operation has ended)')

        def h_closeh(E, st, args, ci):
            h = hv(args[0])
            isp = h == P.h
            g(st, nclose=z3.If(isp, bv(st.ghost['nclose'], 64) + 1, bv(st.ghost['nclose'], 64)))
            E.oblige(st, z3.Implies(isp, z3.Not(z3.Or(st.ghost['ipend'], st.ghost['opend'], st.ghost['cpend']))), 'precondition', 'the pipe is closed only when no operation is running')
            for k, W in ws.items():
                if ws[k].ptr.oid in st.mem:
                    E.oblige(st, z3.Implies(h == bv(evs[list(ws).index(k)], 64), z3.Not(st.ghost[k + 'pend'])), 'precondition', 'the event of a running operation is not closed')
            E.oblige(st, z3.Implies(h == ce, z3.Not(st.ghost['cpend'])), 'precondition', 'the event of a running connect is not closed')
            return 1
        handler(E, r'^CloseHandle$', h_closeh, 'Win32 CloseHandle')

        def h_del(E, st, args, ci):
            for k, W in ws.items():
                if isinstance(args[0], Ptr) and args[0].oid == W.ptr.oid:
                    E.oblige(st, z3.Not(st.ghost[k + 'pend']), 'invariant', 'memory used by a running operation is not freed')
            return h_delete(E, st, args, ci)
        handler(E, r'^operator delete', h_del, 'operator delete')
        for s, o in E.exec_fn(st, E.find_fn(r'^NamedPipe::closePipe'), [P.ptr]):
            E.oblige(s, isinstance(o, Ret), 'exception', 'closePipe does not fail')
            E.oblige(s, bv(s.ghost['nclose'], 64) == z3.If(P.h == 0, w64(0), w64(1)), 'postcondition', 'the pipe handle is closed exactly once')
            E.oblige(s, hv(P.V.get(s, 'm_handle')) == 0, 'postcondition', 'the pipe is closed afterwards')
            E.oblige(s, hv(P.V.get(s, 'm_connectEvent')) == 0, 'postcondition', 'not connecting afterwards')
            if not have:
                continue
            for nm in ('m_inputWorker', 'm_outputWorker'):
                v = P.V.get(s, nm, True)
                E.oblige(s, isinstance(v, Ptr) and v.oid == 0, 'postcondition', 'no worker is left')
            E.oblige(s, P.inqueue_ok(s), 'frame', 'bytes delivered before closing can still be read')


def unit_serviceio(ctx):
    """serviceIo over the contracts of the workers: close on error, wait on pending operations"""
    RC = result_codes(ctx)
    for have in (0, 1, 2, 3):
        for connecting in (0, 1):
            if connecting and have:
                continue
            E = ctx.mk(SRCS)
            win32(E)
            st = State()
            mode = z3.BitVec('mode', 32)
            P = Pipe(E, st)
            if connecting:
                st.assume(z3.And(z3.UGE(mode, 1), z3.ULE(mode, 3)))
                P.V.set(st, 'm_openMode', mode)
            wptr = {}
            evs = {'i': z3.BitVec('ievent', 64), 'o': z3.BitVec('oevent', 64)}
            ce = z3.BitVec('connectEvent', 64)
            st.assume(z3.And(evs['i'] != 0, evs['o'] != 0, ce != 0))
            P.V.set(st, 'm_connectEvent', ce if connecting else 0)
            for k, nm, bit in (('i', 'm_inputWorker', 1), ('o', 'm_outputWorker', 2)):
                if have & bit:
                    wptr[k] = E.new_cells(st, 64, 'worker' + k)
                    P.V.set(st, nm, wptr[k])
            g(st, ires=z3.BitVecVal(RC['NoProgress'], 32), ores=z3.BitVecVal(RC['NoProgress'], 32), ipend=z3.BoolVal(False), opend=z3.BoolVal(False), closecalls=0, is_=0, os_=0, started=0, conn=z3.BoolVal(False))

            def which(E, st, p):
                for nm, k in (('m_inputWorker', 'i'), ('m_outputWorker', 'o')):
                    v = P.V.get(st, nm, True)
                    if isinstance(v, Ptr) and v.oid == p.oid and p.oid:
                        return k
                raise Unsupported('service of another worker')

            def h_service(E, st, args, ci):
                k = which(E, st, args[0])
                r = fresh('result', 32)
                pe = z3.Bool(fresh_name('pend'))
                st.assume(z3.Or(*[r == v for v in RC.values()]))
                g(st, **{k + 'res': r, k + 'pend': pe, k + 's_': st.ghost[k + 's_'] + 1})
                return r
            contract(E, r'IoWorker::service\(', h_service, 'IoWorker::service (verified by N01 service)')

            def h_wait(E, st, args, ci):
                k = which(E, st, args[0])
                return Ptr(0, z3.If(st.ghost[k + 'pend'], evs[k], w64(0)))
            contract(E, r'IoWorker::getWaitEvent\(', h_wait, 'IoWorker::getWaitEvent (verified by N01 waitEvent)')

            def h_close(E, st, args, ci):
                g(st, closecalls=st.ghost['closecalls'] + 1)
                return None
            contract(E, r'^NamedPipe::closePipe', h_close, 'NamedPipe::closePipe (verified by N01 closePipe)')

            def h_start(E, st, args, ci):
                g(st, started=st.ghost['started'] + 1)
                for k, nm, bit in (('i', 'm_inputWorker', 1), ('o', 'm_outputWorker', 2)):
                    pass
                out = []
                for m in (1, 2, 3):
                    s = st.copy()
                    s.assume(mode == m)
                    for k, nm, bit in (('i', 'm_inputWorker', 1), ('o', 'm_outputWorker', 2)):
                        if m & bit:
                            P.V.set(s, nm, E.new_cells(s, 64, 'worker' + k))
                    out.append((s, Ret(None)))
                return Outs(out)
            contract(E, r'^NamedPipe::startPipeWorkers', h_start, 'NamedPipe::startPipeWorkers (verified by N01 start)')

            def h_res(E, st, args, ci):
                h, ov, pn, wait = args
                E.oblige(st, isinstance(ov, Ptr) and ov.oid == P.ptr.oid and ov.off == P.V.lay['m_connectOver'][0], 'precondition', 'the connect operation\'s result is asked for')
                E.oblige(st, isinstance(wait, int) and wait == 0, 'precondition', 'servicing a pipe never blocks')
                a, b, c = st.copy(), st.copy(), st.copy()
                x = z3.BitVec(fresh_name('outcome'), 2)
                a.assume(x == 0)
                g(a, conn=z3.BoolVal(True))
                b.assume(x == 1)
                g(b, lasterr=z3.BitVecVal(PIPE_CONNECTED, 32), conn=z3.BoolVal(True))
                c.assume(z3.UGE(x, 2))
                g(c, lasterr=z3.BitVecVal(INCOMPLETE, 32))
                return Outs([(a, Ret(1)), (b, Ret(0)), (c, Ret(0))])
            handler(E, r'^GetOverlappedResult$', h_res, 'Win32 GetOverlappedResult of a connect (done, already connected, or incomplete; other errors stop the agent)')
            handler(E, r'^CloseHandle$', lambda E, st, args, ci: 1, 'Win32 CloseHandle')
            vec = E.new_cells(st, 24, 'waitHandles')
            n0 = z3.BitVec('n0', 64)
            st.assume(z3.ULE(n0, 64))
            seq_put(E, st, vec, new_seq(E, st, 'void*', n0, {0: FArr.base(64, 'handles')}, False, 'handles'))
            for s, o in E.exec_fn(st, E.find_fn(r'^NamedPipe::serviceIo'), [P.ptr, vec]):
                gh = s.ghost
                err = z3.Or(gh['ires'] == RC['Error'], gh['ores'] == RC['Error'])
                pro = z3.Or(gh['ires'] == RC['Progress'], gh['ores'] == RC['Progress'], gh['conn'])
                E.oblige(s, (bv(o.v, 1) == 1) == z3.Or(err, pro), 'postcondition', 'serviceIo reports progress exactly when something happened')
                E.oblige(s, err == (gh['closecalls'] == 1), 'postcondition', 'the pipe is closed exactly on an error')
                q = seq_get(E, s, vec)
                f = farrs_of(E, s, q)[0]
                hi = P.V.get(s, 'm_inputWorker', True).oid != 0
                ho = P.V.get(s, 'm_outputWorker', True).oid != 0
                E.oblige(s, gh['is_'] == (1 if hi else 0) and gh['os_'] == (1 if ho else 0), 'postcondition', 'both directions are serviced')
                k = z3.BitVec('kk', 64)
                inlist = lambda e: z3.Or(*[z3.And(z3.ULT(n0 + i, bv(q.len, 64)), bv(f.read(n0 + i), 64) == e) for i in range(4)])
                E.oblige(s, z3.Implies(z3.And(z3.Not(err), gh['ipend']), inlist(evs['i'])), 'postcondition', 'a pending read is waited for')
                E.oblige(s, z3.Implies(z3.And(z3.Not(err), gh['opend']), inlist(evs['o'])), 'postcondition', 'a pending write is waited for')
                if connecting:
                    E.oblige(s, z3.Or(gh['conn'], inlist(ce)), 'postcondition', 'a pending connect is waited for')
                    E.oblige(s, z3.Or(z3.Not(gh['conn']), z3.And(gh['started'] == 1, hv(P.V.get(s, 'm_connectEvent')) == 0)), 'postcondition', 'a connected pipe starts its transfers')
                    E.oblige(s, z3.Or(gh['conn'], gh['started'] == 0), 'postcondition', 'no transfer starts before the connection')
                E.oblige(s, z3.ULE(bv(q.len, 64), n0 + z3.If(gh['ipend'], w64(1), w64(0)) + z3.If(gh['opend'], w64(1), w64(0)) + z3.If(z3.And(z3.BoolVal(bool(connecting)), z3.Not(gh['conn'])), w64(1), w64(0))), 'postcondition', 'nothing else is waited for')
                if have == 0 and not connecting:
                    pass
    # a closed pipe does nothing
    E = ctx.mk(SRCS)
    st = State()
    P = Pipe(E, st)
    P.V.set(st, 'm_handle', 0)
    vec = E.new_cells(st, 24, 'waitHandles')
    seq_put(E, st, vec, new_seq(E, st, 'void*', 0, {0: FArr.base(64, 'handles')}, False, 'handles'))
    for s, o in E.exec_fn(st, E.find_fn(r'^NamedPipe::serviceIo'), [P.ptr, vec]):
        E.oblige(s, bv(o.v, 1) == 0, 'postcondition', 'a closed pipe makes no progress')
        E.oblige(s, bv(seq_get(E, s, vec).len, 64) == 0, 'postcondition', 'a closed pipe is not waited for')
    # getWaitEvent
    for k in 'io':
        E, st, P, W, buf, bufarr, pend = setup_service(ctx, k)
        ev = hv(W.get(st, 'm_event'))
        for s, o in E.exec_fn(st, E.find_fn(r'IoWorker::getWaitEvent'), [W.ptr]):
            E.oblige(s, hv(o.v) == z3.If(pend, ev, w64(0)), 'postcondition', 'the wait event is that of the pending operation')


def unit_start(ctx):
    for mode in (1, 2, 3):
        E = ctx.mk(SRCS)
        win32(E)
        st = State()
        P = Pipe(E, st, mode)
        for s, o in E.exec_fn(st, E.find_fn(r'^NamedPipe::startPipeWorkers'), [P.ptr]):
            E.oblige(s, isinstance(o, Ret), 'exception', 'startPipeWorkers does not fail')
            for nm, cls, bit in (('m_inputWorker', 'InputWorker', 1), ('m_outputWorker', 'OutputWorker', 2)):
                v = P.V.get(s, nm, True)
                E.oblige(s, (v.oid != 0) == bool(mode & bit), 'postcondition', 'a worker exists exactly for the open directions')
                if v.oid:
                    W = View(E, 'IoWorker', v)
                    E.oblige(s, z3.Not(b8(W.get(s, 'm_pending'))), 'invariant', 'a new worker has no pending operation')
                    np = W.get(s, 'm_namedPipe', True)
                    E.oblige(s, isinstance(np, Ptr) and np.oid == P.ptr.oid, 'invariant', 'a new worker serves this pipe')
                    E.oblige(s, hv(W.get(s, 'm_event')) != 0, 'invariant', 'a new worker has an event')


UNITS = [('startPipeWorkers', unit_start), ('queue', unit_queue), ('input service', unit_service('i')), ('output service', unit_service('o')), ('closePipe', unit_close), ('serviceIo', unit_serviceio)]
HARNESS = ['h_n01']
RULE = 'harness: random schedules of write/read/peek/service/close against a simulated system that completes, delays, shortens or fails operations; distinct = schedules'
