"""Security descriptors, pipe creation and unique names under contract (property N02)."""
import agentcc, N01
from libcc import *

WS, GR, NP = 'src/shared/WindowsSecurity.cc', 'src/shared/GenRandom.cc', 'src/agent/NamedPipe.cc'
H_TOKEN = z3.BitVec('hToken', 64)
NT = (0, 0, 0, 0, 0, 5)
SYSTEM, ADMINS = (NT, (18,)), (NT, (32, 544))
HM = 0x7FF0001000


def apis(E, st):
    """the security calls; identifiers, lists and descriptors are opaque handles with a ghost meaning"""
    st.assume(z3.And(H_TOKEN != 0, H_TOKEN != INV))
    g(st, log=(), sids=(), freed=(), bad=False, tok=0, owner=None, acl=None, sd=None, sddacl=None, lasterr=z3.BitVec('err0', 32), exc=None, newcode=None, closed=(), impersonating=None)
    install_exc(E)
    oh_close(E)
    oom(E)
    crit(E)
    handler(E, r'^GetLastError$', lambda E, s, a, ci: s.ghost['lasterr'], 'GetLastError: of the last failing call')
    handler(E, r'^trace\(', lambda E, s, a, ci: None, 'trace: no effect on program state')
    handler(E, r'^assertTrace\(', lambda E, s, a, ci: None, False)
    handler(E, r'^agentAssertFail\(|^(winpty)?[aA]ssertFail', lambda E, s, a, ci: NoReturn(), 'a failed assertion ends the process')

    def con(v):
        v = z3.simplify(bv(v, 32)) if not isinstance(v, int) else v
        if not isinstance(v, int):
            if not z3.is_bv_value(v):
                raise Unsupported('an unknown part of an identifier')
            v = v.as_long()
        return v

    def fail(s):
        b = s.copy()
        g(b, bad=True, lasterr=fresh('lasterr', 32))
        return b

    def alloc_sid(E, s, a, ci):
        auth = tuple(con(z3.ZeroExt(24, bv(E.load_raw(s, padd(a[0], i), 1, None), 8))) for i in range(6))
        n = con(z3.ZeroExt(24, bv(a[1], 8)))
        E.oblige(s, 1 <= n <= 8, 'precondition', 'AllocateAndInitializeSid: 1 to 8 parts')
        b = fail(s)
        h = fresh('sid', 64)
        s.assume(h != 0)
        g(s, sids=s.ghost['sids'] + ((h, (auth, tuple(con(x) for x in a[2:2 + n]))),))
        E.store_raw(s, a[10], Ptr(0, h), 8)
        return Outs([(s, Ret(1)), (b, Ret(0))])
    handler(E, r'^AllocateAndInitializeSid$', alloc_sid, 'AllocateAndInitializeSid: a new identifier of that authority and those parts, or failure')

    def free(what):
        def f(E, s, a, ci):
            h = hv(a[0])
            mine = [x for x in (s.ghost['sids'] if what == 'sid' else s.ghost['log']) if (x[0] if what == 'sid' else x[1]) is h]
            E.oblige(s, len(mine) == 1 and not any(x is h for x in s.ghost['freed']), 'precondition', 'what is released was allocated and is released once')
            g(s, freed=s.ghost['freed'] + (h,))
            return Ptr(0, 0)
        return f
    handler(E, r'^FreeSid$', free('sid'), 'FreeSid')
    handler(E, r'^LocalFree$', free('mem'), 'LocalFree')

    # the token
    handler(E, r'^GetCurrent(Thread|Process)$', lambda E, s, a, ci: Ptr(0, 2 ** 64 - (2 if 'Thread' in ci.dn else 1)), 'GetCurrentThread, GetCurrentProcess')

    def thread_token(E, s, a, ci):
        E.oblige(s, z3.And(hv(a[0]) == w64(2 ** 64 - 2), bv(a[1], 32) == 8), 'precondition', 'the token of this thread, for queries')
        b, c = fail(s), s.copy()
        E.store_raw(s, a[3], Ptr(0, H_TOKEN), 8)
        g(s, impersonating=True)
        g(c, impersonating=False, lasterr=w32(1008))
        g(b, impersonating=None)
        b.assume(b.ghost['lasterr'] != 1008)
        return Outs([(s, Ret(1)), (b, Ret(0)), (c, Ret(0))])
    handler(E, r'^OpenThreadToken$', thread_token, 'OpenThreadToken: a token, ERROR_NO_TOKEN, or another failure')

    def process_token(E, s, a, ci):
        E.oblige(s, z3.And(hv(a[0]) == w64(2 ** 64 - 1), bv(a[1], 32) == 8), 'precondition', 'the token of this process, for queries')
        E.oblige(s, s.ghost['impersonating'] is False, 'precondition', 'only when the thread has no token of its own')
        b = fail(s)
        E.store_raw(s, a[2], Ptr(0, H_TOKEN), 8)
        return Outs([(s, Ret(1)), (b, Ret(0))])
    handler(E, r'^OpenProcessToken$', process_token, 'OpenProcessToken')
    E.owner_size = z3.BitVec('owner.size', 32)
    st.assume(z3.And(z3.UGE(E.owner_size, 8), z3.ULE(E.owner_size, 4096)))

    def token_info(E, s, a, ci):
        E.oblige(s, z3.And(hv(a[0]) == H_TOKEN, z3.Not(z3.Or(*[x == H_TOKEN for x in s.ghost['closed']]) if s.ghost['closed'] else z3.BoolVal(False))), 'precondition', 'the token opened')
        E.oblige(s, bv(a[1], 32) == 4, 'precondition', 'the owner is asked for')
        cap = bv(a[3], 32)
        b = fail(s)
        E.store_raw(s, a[4], E.owner_size, 4)
        out = [(b, Ret(0))]
        for s2, fits in E.fork(s, z3.UGE(cap, E.owner_size)):
            if not fits:
                g(s2, lasterr=w32(122))
                out.append((s2, Ret(0)))
                continue
            if a[2].oid == 0:
                g(s2, bad=True)
                out.append((s2, Ret(1)))      # (not expected by the caller)
                continue
            sz = dict(s2.ghost.get('sizes', ())).get(a[2].oid)
            E.oblige(s2, sz is not None and bv(a[2].off, 64).eq(w64(0)), 'memory', 'the buffer allocated')
            if sz is not None:
                E.oblige(s2, z3.ULE(z3.ZeroExt(32, cap), sz), 'memory', 'the buffer is as large as said')
            h = fresh('ownerSid', 64)
            s2.assume(h != 0)
            E.store_raw(s2, a[2], Ptr(0, h), 8)
            g(s2, owner=h, ownerbuf=a[2].oid)
            out.append((s2, Ret(1)))
        return Outs(out)

    def new_array(E, s, a, ci):
        p = E.new_cells(s, 4096, 'buffer')
        g(s, sizes=s.ghost.get('sizes', ()) + ((p.oid, bv(a[0], 64)),))
        return p
    E.fn_overrides['newarray'] = new_array
    handler(E, r'^GetTokenInformation$', token_info, 'GetTokenInformation(TokenOwner): the owner, or the size needed, or failure')

    def set_entries(E, s, a, ci):
        E.oblige(s, z3.And(bv(a[0], 32) == 3, hv(a[2]) == 0), 'precondition', 'three entries and nothing else')
        who = []
        for i in range(3):
            e = padd(a[1], 48 * i)
            f32 = lambda o: bv(E.load_raw(s, padd(e, o), 4, None), 32)
            fp = lambda o: hv(E.load_raw(s, padd(e, o), 8, ('ptr',)))
            E.oblige(s, f32(0) == 0x10000000, 'precondition', 'full control')
            E.oblige(s, z3.Or(f32(4) == 2, f32(4) == 1), 'precondition', 'access is granted, not denied or revoked')
            E.oblige(s, f32(8) == 0, 'precondition', 'not inherited')
            E.oblige(s, z3.And(fp(16) == 0, f32(24) == 0, f32(28) == 0), 'precondition', 'each entry names an identifier')
            p = fp(40)
            kinds = [(h, k_) for h, k_ in s.ghost['sids'] if h is p or z3.simplify(h == p).eq(z3.BoolVal(True))]
            if s.ghost['owner'] is not None and z3.simplify(s.ghost['owner'] == p).eq(z3.BoolVal(True)):
                kinds.append((p, 'owner'))
            E.oblige(s, len(kinds) == 1 and not any(x is kinds[0][0] for x in s.ghost['freed']), 'precondition', 'the identifier exists')
            if len(kinds) == 1:
                who.append(kinds[0][1])
                if kinds[0][1] == 'owner':
                    E.oblige(s, s.mem[s.ghost['ownerbuf']].alive if s.ghost['ownerbuf'] in s.mem else False, 'precondition', 'the owner is still held')
        E.oblige(s, sorted(map(repr, who)) == sorted(map(repr, [SYSTEM, ADMINS, 'owner'])), 'precondition', 'access is granted to the system, the administrators and the owner, and to nobody else')
        b = fail(s)
        h = fresh('acl', 64)
        s.assume(h != 0)
        E.store_raw(s, a[3], Ptr(0, h), 8)
        g(s, acl=h, log=s.ghost['log'] + (('acl', h),))
        r = fresh('aclError', 32)
        b.assume(r != 0)
        return Outs([(s, Ret(0)), (b, Ret(r))])
    handler(E, r'^SetEntriesInAclW$', set_entries, 'SetEntriesInAclW: a list of exactly the entries given, or failure')

    def local_alloc(E, s, a, ci):
        E.oblige(s, z3.UGE(bv(a[1], 64), 40), 'precondition', 'room for a descriptor')
        b = fail(s)
        h = fresh('sd', 64)
        s.assume(h != 0)
        g(s, sd=h, log=s.ghost['log'] + (('sd', h),), sdinit=False)
        return Outs([(s, Ret(Ptr(0, h))), (b, Ret(Ptr(0, 0)))])
    handler(E, r'^LocalAlloc$', local_alloc, 'LocalAlloc')

    def init_sd(E, s, a, ci):
        E.oblige(s, s.ghost['sd'] is not None and hv(a[0]) is s.ghost['sd'], 'precondition', 'the descriptor allocated')
        E.oblige(s, bv(a[1], 32) == 1, 'precondition', 'SECURITY_DESCRIPTOR_REVISION')
        b = fail(s)
        g(s, sdinit=True, sddacl=None)
        return Outs([(s, Ret(1)), (b, Ret(0))])
    handler(E, r'^InitializeSecurityDescriptor$', init_sd, 'InitializeSecurityDescriptor')

    def set_dacl(E, s, a, ci):
        E.oblige(s, s.ghost['sd'] is not None and hv(a[0]) is s.ghost['sd'] and s.ghost['sdinit'], 'precondition', 'an initialized descriptor')
        E.oblige(s, z3.And(bv(a[1], 32) != 0, bv(a[3], 32) == 0), 'precondition', 'the list is present and not a default')
        E.oblige(s, s.ghost['acl'] is not None and hv(a[2]) is s.ghost['acl'], 'precondition', 'the list made from the entries (no list means everyone)')
        b = fail(s)
        g(s, sddacl=s.ghost['acl'])
        return Outs([(s, Ret(1)), (b, Ret(0))])
    handler(E, r'^SetSecurityDescriptorDacl$', set_dacl, 'SetSecurityDescriptorDacl')


def unit_descriptor(ctx):
    """createPipeSecurityDescriptorOwnerFullControl: system, administrators and owner, nobody else"""
    E = ctx.mk([WS, OH])
    st = State()
    apis(E, st)
    builder(E)
    r = E.new_cells(st, 16, 'ret')
    E.targets += ['createPipeSecurityDescriptorOwnerFullControl', 'finishSecurityDescriptor', 'localSystemSid', 'builtinAdminsSid', 'wellKnownSid', 'getOwnerSid', 'openSecurityTokenForQuery']
    V = View(E, 'SecurityItem<SecurityDescriptorTag>', r)
    done = 0
    E.merge = False
    for s, o in E.exec_fn(st, E.find_fn(r'^createPipeSecurityDescriptorOwnerFullControl\(\)$'), [r]):
        gh = s.ghost
        if isinstance(o, Throw):
            E.oblige(s, bool(gh['bad']), 'postcondition', 'fails only if the system does')
            if gh['exc'] != 'oom':
                E.oblige(s, all(any(x is h for x in gh['freed']) for h in [y[0] for y in gh['sids']] + [y[1] for y in gh['log']]), 'postcondition', 'a failure releases what was made')
            continue
        if not isinstance(o, Ret):
            continue
        done += 1
        E.oblige(s, hv(V.get(s, 'm_v', True)) is gh['sd'] and gh['sddacl'] is not None and gh['sddacl'] is gh['acl'], 'postcondition', 'the descriptor with the access list is returned')
        E.oblige(s, not any(x is gh['sd'] or x is gh['acl'] for x in gh['freed']), 'postcondition', 'the descriptor and its list exist while it is held')
        E.oblige(s, len(gh['closed']) == 1, 'postcondition', 'the token is closed')
        for s2, o2 in E.exec_fn(s, E.find_fn(r'^SecurityItem<SecurityDescriptorTag>::~SecurityItem\('), [r]):
            if isinstance(o2, Ret):
                E.oblige(s2, all(any(x is h for x in s2.ghost['freed']) for h in [y[0] for y in s2.ghost['sids']] + [y[1] for y in s2.ghost['log']]), 'postcondition', 'letting go of the descriptor releases everything')
    if not done:
        raise Unsupported('no successful path')


def unit_flag(ctx):
    """rejectRemoteClientsPipeFlag, getNamedPipeClientProcessId"""
    E = ctx.mk([WS, OH])
    st = State()
    apis(E, st)
    vista = z3.Bool('vista')
    handler(E, r'^isAtLeastWindowsVista\(', lambda E, s, a, ci: bv(vista, 1), 'isAtLeastWindowsVista: either')
    E.targets += ['rejectRemoteClientsPipeFlag', 'getNamedPipeClientProcessId']
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^rejectRemoteClientsPipeFlag\('), []):
        if isinstance(o, Ret):
            E.oblige(s, bv(o.v, 32) == z3.If(vista, w32(8), w32(0)), 'postcondition', 'remote clients are refused wherever the system can')
    hm = Ptr(0, z3.BitVec('hModule', 64))
    fp = Ptr(0, z3.BitVec('proc', 64))
    st.assume(z3.And(hv(hm) != 0))
    hp, pid = z3.BitVec('hPipe', 64), z3.BitVec('clientPid', 32)
    st.assume(hp != 0)
    g(st, called=0, mod=0)

    def load(E, s, a, ci):
        E.oblige(s, lit_at(E, s, a[0]).lower() == 'kernel32.dll', 'precondition', 'the system module')
        g(s, mod=1)
        return hm
    handler(E, r'^LoadLibraryW$', load, 'LoadLibraryW')

    def freel(E, s, a, ci):
        E.oblige(s, s.ghost['mod'] == 1, 'precondition', 'the module is released once')
        g(s, mod=2)
        return 1
    handler(E, r'^FreeLibrary$', freel, 'FreeLibrary')

    def proc(E, s, a, ci):
        E.oblige(s, lit_at(E, s, a[1], 1) == 'GetNamedPipeClientProcessId', 'precondition', 'the function looked up')
        return fp
    handler(E, r'^GetProcAddress$', proc, 'GetProcAddress: the function, or null')

    def indirect(E, s, target, a, ci):
        if not (isinstance(target, Ptr) and target.oid == 0):
            return None
        E.oblige(s, z3.And(hv(target) == hv(fp), hv(fp) != 0), 'precondition', 'the function found is called')
        E.oblige(s, z3.And(hv(a[0]) == hp, boolv(s.ghost['mod'] == 1)), 'precondition', 'of this pipe')
        b = s.copy()
        g(s, called=1)
        E.store_raw(s, a[1], pid, 4)
        e = fresh('lasterr', 32)
        g(b, called=2, lasterr=e)
        return Outs([(s, Ret(1)), (b, Ret(0))])
    E.fn_overrides['indirect'] = indirect
    vals = enum_values(E, WS, ('Success', 'Failure', 'UnsupportedOs'))
    r = E.new_cells(st, 12, 'ret')
    for s, o in E.exec_fn(st, E.find_fn(r'^getNamedPipeClientProcessId\('), [r, Ptr(0, hp)]):
        if not isinstance(o, Ret):
            continue
        err, p, res = (bv(E.load_raw(s, padd(r, i), 4, None), 32) for i in (0, 4, 8))
        c = s.ghost['called']
        E.oblige(s, boolv(c == 0) == (hv(fp) == 0), 'postcondition', 'asked exactly where the system can tell')
        E.oblige(s, res == vals[('UnsupportedOs', 'Success', 'Failure')[c]], 'postcondition', 'the outcome of the call')
        if c == 1:
            E.oblige(s, p == pid, 'postcondition', 'the process id of the client')
        if c == 2:
            E.oblige(s, err == s.ghost['lasterr'], 'postcondition', 'the error of the call')


def enum_values(E, tu_, names):
    out = {}
    for n in names:
        x = set(re.findall(r'!DIEnumerator\(name: "%s", value: (-?\d+)' % n, E.ctx.module(tu_).text()))
        if len(x) != 1:
            raise Unsupported('enumerator not found')
        out[n] = int(x.pop())
    return out


def unit_server_pipe(ctx):
    """NamedPipe::openServerPipe, connectToServer: exclusive, local, protected"""
    for server in (True, False):
        for mode in (1, 2, 3):
            E = ctx.mk([NP, OH])
            st = State()
            P = N01.Pipe(E, st)
            P.V.set(st, 'm_handle', 0)
            P.V.set(st, 'm_openMode', 0)
            apis(E, st)
            nm, L, f = cstr(E, st, 'pipeName')
            outsz, insz, rej = z3.BitVec('outSize', 32), z3.BitVec('inSize', 32), z3.BitVec('rejectRemote', 32)
            hp, he, sdp = z3.BitVec('hNew', 64), z3.BitVec('hEvent', 64), Ptr(0, z3.BitVec('sdp', 64))
            st.assume(z3.And(hp != 0, hp != INV, he != 0, he != INV))
            g(st, made=0, sdlive=False, conn=None, started=0)

            def sd(E, s, a, ci):
                g(s, sdlive=True)
            handler(E, r'^createPipeSecurityDescriptorOwnerFullControl\(', sd, 'createPipeSecurityDescriptorOwnerFullControl (unit descriptor), or it throws (which ends the agent)')
            handler(E, r'^SecurityItem<SecurityDescriptorTag>::get\(', lambda E, s, a, ci: sdp, 'SecurityItem::get')
            handler(E, r'^SecurityItem<SecurityDescriptorTag>::operator bool', lambda E, s, a, ci: hv(sdp) != 0, 'SecurityItem')
            handler(E, r'^SecurityItem<SecurityDescriptorTag>::~SecurityItem', lambda E, s, a, ci: g(s, sdlive=False), 'SecurityItem')
            handler(E, r'^rejectRemoteClientsPipeFlag\(', lambda E, s, a, ci: rej, 'rejectRemoteClientsPipeFlag (unit flag)')
            handler(E, r'^utf8FromWide\(', lambda E, s, a, ci: seq_put(E, s, a[0], new_seq(E, s, 'char', 0, {0: FArr.const(8, 0)}, True, 'utf8')), 'utf8FromWide (for tracing only)')
            handler(E, r'^(isTracingEnabled)\(', lambda E, s, a, ci: fresh('tracing', 1), 'isTracingEnabled: either')

            def same_name(E, s, p):
                src, i0 = src_range(E, s, p, L + 1, 2)
                E.oblige(s, z3.Implies(z3.ULE(k, L), bv(src.read(add64(i0, k)), 16) == bv(f.read(k), 16)), 'precondition', 'the name given')

            def create(E, s, a, ci):
                E.oblige(s, server and s.ghost['made'] == 0, 'precondition', 'one pipe is created')
                same_name(E, s, a[0])
                E.oblige(s, bv(a[1], 32) == (mode | 0x80000 | 0x40000000), 'precondition', 'the first instance of its name, in the directions asked for, overlapped')
                E.oblige(s, bv(a[2], 32) == rej, 'precondition', 'a byte pipe; remote clients are refused where possible')
                E.oblige(s, bv(a[3], 32) == 1, 'precondition', 'a single instance')
                E.oblige(s, z3.And(bv(a[4], 32) == outsz, bv(a[5], 32) == insz), 'precondition', 'the buffer sizes asked for')
                sa = a[7]
                E.oblige(s, sa.oid != 0, 'precondition', 'protected by a security descriptor')
                if sa.oid:
                    E.oblige(s, z3.And(bv(E.load_raw(s, sa, 4, None), 32) == 24, hv(E.load_raw(s, padd(sa, 8), 8, ('ptr',))) == hv(sdp), bv(E.load_raw(s, padd(sa, 16), 4, None), 32) == 0, hv(sdp) != 0), 'precondition', 'the owner\'s descriptor, not inherited')
                    E.oblige(s, s.ghost['sdlive'], 'precondition', 'the descriptor still exists')
                b = s.copy()
                g(s, made=1)
                return Outs([(s, Ret(Ptr(0, hp))), (b, Ret(Ptr(0, 2 ** 64 - 1)))])
            handler(E, r'^CreateNamedPipeW$', create, 'CreateNamedPipeW: the pipe, or INVALID_HANDLE_VALUE')

            def openf(E, s, a, ci):
                E.oblige(s, not server and s.ghost['made'] == 0, 'precondition', 'one pipe is opened')
                same_name(E, s, a[0])
                E.oblige(s, z3.And(bv(a[1], 32) == 0xC0000000, bv(a[2], 32) == 0, bv(a[4], 32) == 3, hv(a[6]) == 0), 'precondition', 'an existing pipe, both ways, not shared')
                E.oblige(s, z3.And(bv(a[5], 32) & 0x00130000 == 0x00110000, bv(a[5], 32) & 0x40000000 != 0), 'precondition', 'the server may identify but not impersonate this process; overlapped')
                b = s.copy()
                g(s, made=1)
                return Outs([(s, Ret(Ptr(0, hp))), (b, Ret(Ptr(0, 2 ** 64 - 1)))])
            handler(E, r'^CreateFileW$', openf, 'CreateFileW: the pipe, or INVALID_HANDLE_VALUE')

            def event(E, s, a, ci):
                E.oblige(s, z3.And(hv(a[0]) == 0, bv(a[1], 32) != 0, bv(a[2], 32) == 0, hv(a[3]) == 0), 'precondition', 'a nameless manual-reset event, not set')
                b = s.copy()
                return Outs([(s, Ret(Ptr(0, he))), (b, Ret(Ptr(0, 0)))])
            handler(E, r'^CreateEventW$', event, 'CreateEventW')

            def connect(E, s, a, ci):
                E.oblige(s, server and s.ghost['made'] == 1 and s.ghost['conn'] is None, 'precondition', 'one connection is awaited')
                E.oblige(s, hv(a[0]) == hp, 'precondition', 'on the new pipe')
                ov = a[1]
                E.oblige(s, isinstance(ov, Ptr) and ov.oid == P.ptr.oid and ov.off == P.V.lay['m_connectOver'][0], 'precondition', 'the operation outlives the call')
                E.oblige(s, hv(E.load_raw(s, padd(ov, 24), 8, ('ptr',))) == he, 'precondition', 'with its event')
                for i in range(0, 24, 8):
                    E.oblige(s, hv(E.load_raw(s, padd(ov, i), 8, ('ptr',))) == 0, 'precondition', 'a fresh operation')
                out = []
                for ok, e, what in ((1, None, 'now'), (0, 535, 'now'), (0, 997, 'later'), (0, None, 'fails')):
                    b = s.copy()
                    ev = w32(e) if e else fresh('lasterr', 32)
                    if what == 'fails':
                        b.assume(z3.And(ev != 535, ev != 997))
                    g(b, conn=what, lasterr=ev)
                    out.append((b, Ret(ok)))
                return Outs(out)
            handler(E, r'^ConnectNamedPipe$', connect, 'ConnectNamedPipe: connected, already connected, pending, or failed')

            def start(E, s, a, ci):
                E.oblige(s, bv(P.V.get(s, 'm_openMode'), 32) == mode, 'precondition', 'the directions are known when transfers start')
                g(s, started=s.ghost['started'] + 1)
            contract(E, r'^NamedPipe::startPipeWorkers\(', start, 'NamedPipe::startPipeWorkers (property N01)')
            fn = 'openServerPipe' if server else 'connectToServer'
            E.targets.append('NamedPipe::' + fn)
            E.merge = False
            args = [P.ptr, nm, mode] + ([outsz, insz] if server else [])
            n = 0
            for s, o in E.exec_fn(st, E.find_fn(r'^NamedPipe::%s\(' % fn), args):
                if not isinstance(o, Ret):
                    E.oblige(s, isinstance(o, NoReturn) or s.ghost['bad'], 'exception', 'no exception')
                    continue
                n += 1
                E.oblige(s, s.ghost['made'] == 1 and (not server or s.ghost['conn'] in ('now', 'later')), 'postcondition', 'a failure ends the agent')
                E.oblige(s, hv(P.V.get(s, 'm_handle', True)) == hp, 'postcondition', 'the pipe is kept')
                E.oblige(s, bv(P.V.get(s, 'm_openMode'), 32) == mode, 'postcondition', 'the directions are kept')
                later = server and s.ghost['conn'] == 'later'
                E.oblige(s, s.ghost['started'] == (0 if later else 1), 'postcondition', 'transfers start once connected')
                E.oblige(s, hv(View(E, 'OwnedHandle', P.V.p('m_connectEvent')).get(s, 'm_h', True)) == (he if later else w64(0)), 'postcondition', 'the connect event is held while connecting')
                q = P.V.seq(s, 'm_name')
                fa = farrs_of(E, s, q)[0]
                E.oblige(s, z3.And(bv(q.len, 64) == L, z3.Implies(z3.ULT(k, L), bv(fa.read(k), 16) == bv(f.read(k), 16))), 'postcondition', 'the name is kept')
                E.oblige(s, not s.ghost['sdlive'], 'postcondition', 'the descriptor is released')
            if not n:
                raise Unsupported('no successful path')


def unit_data_pipes(ctx):
    """Agent::createDataServerPipe, connectToControlPipe: the name and the directions"""
    for write in (0, 1):
        for kind in ('conin', 'conout', 'conerr'):
            E, st, A = agentcc.agent(ctx)
            apis(E, st)
            builder(E)
            E.oomb = False
            kp = new_wlit(E, st, kind)
            PP = new_object(E, st, 'NamedPipe', 'dataPipe')
            g(st, opened=None, rbs=None, made=0)

            def create(E, s, a, ci):
                g(s, made=s.ghost['made'] + 1)
                return PP.ptr
            handler(E, r'^EventLoop::createNamedPipe\(', create, 'EventLoop::createNamedPipe')
            handler(E, r'^GenRandom::GenRandom\(|^GenRandom::~GenRandom\(', lambda E, s, a, ci: None, 'GenRandom (unit random)')
            handler(E, r'^GenRandom::uniqueName\(', lambda E, s, a, ci: text(E, s, a[0], (('id', 'unique'),), 'unique'), 'GenRandom::uniqueName (unit unique name)')

            def opens(E, s, a, ci):
                E.oblige(s, a[0].oid == PP.ptr.oid and s.ghost['opened'] is None, 'precondition', 'the new pipe is opened once')
                ps = [s.ghost[k2] for k2 in s.ghost if k2 == 'pc:%s' % a[1].oid]
                E.oblige(s, len(ps) == 1, 'precondition', 'a name put together here')
                if ps:
                    same_pieces(E, s, ps[0], (('lit', '\\\\.\\pipe\\winpty-' + kind + '-'), ('id', 'unique')), 'the pipe name holds its kind and a unique part')
                E.oblige(s, bv(a[2], 32) == (2 if write else 1), 'precondition', 'the agent writes an output pipe and reads an input pipe')
                E.oblige(s, z3.And(bv(a[3 if write else 4], 32) > 0), 'precondition', 'the direction used has a buffer')
                g(s, opened=1)
            handler(E, r'^NamedPipe::openServerPipe\(', opens, 'NamedPipe::openServerPipe (unit server pipe)')

            def setrbs(E, s, a, ci):
                E.oblige(s, s.ghost['opened'] == 1 and not write, 'precondition', 'a pipe open for reading')
                g(s, rbs=bv(a[1], 64))
            handler(E, r'^NamedPipe::setReadBufferSize\(', setrbs, 'NamedPipe::setReadBufferSize')
            E.targets.append('Agent::createDataServerPipe')
            for s, o in E.exec_fn(st, E.find_fn(r'^Agent::createDataServerPipe\('), [A.ptr, write, kp]):
                if isinstance(o, Ret):
                    E.oblige(s, s.ghost['opened'] == 1 and s.ghost['made'] == 1 and isinstance(o.v, Ptr) and o.v.oid == PP.ptr.oid, 'postcondition', 'the pipe opened is returned')
                    if not write:
                        E.oblige(s, s.ghost['rbs'] is not None and s.ghost['rbs'] != 0 if s.ghost['rbs'] is not None else False, 'postcondition', 'input is read in bulk')
                elif isinstance(o, Throw):
                    E.oblige(s, bool(s.ghost['bad']), 'postcondition', 'fails only if the system does')
    E, st, A = agentcc.agent(ctx)
    apis(E, st)
    nm, L, f = cstr(E, st, 'pipeName')
    PP = new_object(E, st, 'NamedPipe', 'controlPipe')
    g(st, opened=None, rbs=None)
    handler(E, r'^EventLoop::createNamedPipe\(', lambda E, s, a, ci: PP.ptr, 'EventLoop::createNamedPipe')

    def conn(E, s, a, ci):
        E.oblige(s, a[0].oid == PP.ptr.oid and a[1].oid == nm.oid and s.ghost['opened'] is None, 'precondition', 'the pipe named')
        E.oblige(s, bv(a[2], 32) == 3, 'precondition', 'both ways')
        g(s, opened=1)
    handler(E, r'^NamedPipe::connectToServer\(', conn, 'NamedPipe::connectToServer (unit server pipe)')
    handler(E, r'^NamedPipe::setReadBufferSize\(', lambda E, s, a, ci: g(s, rbs=bv(a[1], 64)), 'NamedPipe::setReadBufferSize')
    E.targets.append('Agent::connectToControlPipe')
    for s, o in E.exec_fn(st, E.find_fn(r'^Agent::connectToControlPipe\('), [A.ptr, nm]):
        if isinstance(o, Ret):
            E.oblige(s, s.ghost['opened'] == 1 and o.v.oid == PP.ptr.oid, 'postcondition', 'the pipe connected is returned')


def new_wlit(E, st, t):
    f = FArr.const(16, 0)
    for i, c in enumerate(t):
        f = f.set(i, ord(c))
    p = E.new_arr(st, 2, {0: 2}, len(t) + 1, 'lit', {0: f})
    E.oid_global = dict(E.oid_global)
    E.oid_global[p.oid] = 'literal'
    return p


def unit_random(ctx):
    """GenRandom: the constructor, fillBuffer and randomBytes deliver the system's random bytes or say that there are none"""
    for what in ('ctor', 'fill', 'bytes'):
        E = ctx.mk([GR])
        st = State()
        apis(E, st)
        hm, fp, prov = Ptr(0, z3.BitVec('hModule', 64)), Ptr(0, z3.BitVec('proc', 64)), z3.BitVec('prov', 64)
        st.assume(hv(hm) != 0)
        R = new_object(E, st, 'GenRandom', 'random')
        K = z3.BitVec('K', 64)
        n = z3.BitVec('n', 64)
        st.assume(z3.ULE(n, 1 << 20))
        E.inputs.update(n=n, K=K)
        rnd = FArr.base(8, 'rnd')
        g(st, gen=None, acq=None, mod=0)

        def load(E, s, a, ci):
            E.oblige(s, lit_at(E, s, a[0]).lower() == 'advapi32.dll', 'precondition', 'the system module')
            g(s, mod=1)
            return hm
        handler(E, r'^LoadLibraryW$', load, 'LoadLibraryW')

        def proc(E, s, a, ci):
            E.oblige(s, lit_at(E, s, a[1], 1) == 'SystemFunction036', 'precondition', 'RtlGenRandom is looked up')
            return fp
        handler(E, r'^GetProcAddress$', proc, 'GetProcAddress: the function, or null')

        def acquire(E, s, a, ci):
            E.oblige(s, z3.And(bv(a[3], 32) == 1, bv(a[4], 32) == 0xF0000000), 'precondition', 'a context without keys')
            b = s.copy()
            E.store_raw(s, a[0], prov, 8)
            g(s, acq=True)
            g(b, acq=False, lasterr=fresh('lasterr', 32))
            return Outs([(s, Ret(1)), (b, Ret(0))])
        handler(E, r'^CryptAcquireContext[AW]$', acquire, 'CryptAcquireContext: a provider, or failure')

        def fill(E, s, p, size, ret):
            E.oblige(s, s.ghost['gen'] is None, 'precondition', 'the bytes are drawn once')
            src, i0 = src_range(E, s, p, z3.ZeroExt(32, bv(size, 32)), 1)
            b = s.copy()
            arr = s.mem[p.oid].clone()
            base = p.off
            w, fa = arr.fields[0]
            arr.fields[0] = (w, fa.copy(base if not z3.is_bv(base) else base, z3.ZeroExt(32, bv(size, 32)), rnd, w64(0)))
            s.mem[p.oid] = arr
            g(s, gen=bv(size, 32))
            g(b, gen=False, lasterr=fresh('lasterr', 32))
            return Outs([(s, Ret(ret)), (b, Ret(0))])

        def indirect(E, s, target, a, ci):
            if not (isinstance(target, Ptr) and target.oid == 0):
                return None
            E.oblige(s, z3.And(hv(target) == hv(fp), hv(fp) != 0), 'precondition', 'the function found is called')
            return fill(E, s, a[0], a[1], 1)
        E.fn_overrides['indirect'] = indirect

        def crypt(E, s, a, ci):
            E.oblige(s, bv(a[0], 64) == prov, 'precondition', 'the provider acquired')
            return fill(E, s, a[2], a[1], 1)
        handler(E, r'^CryptGenRandom$', crypt, 'CryptGenRandom: random bytes, or failure')
        if what == 'ctor':
            R.set(st, 'm_rtlGenRandom', Ptr(0, 0xAAAA))
            E.targets.append('GenRandom::GenRandom')
            for s, o in E.exec_fn(st, E.find_fn(r'^GenRandom::GenRandom\('), [R.ptr]):
                if not isinstance(o, Ret):
                    continue
                E.oblige(s, hv(R.get(s, 'm_rtlGenRandom', True)) == hv(fp), 'postcondition', 'the function found')
                valid = bv(R.get(s, 'm_cryptProvIsValid'), 8) != 0
                E.oblige(s, valid == boolv(s.ghost['acq'] is True), 'postcondition', 'the provider is used when there is one')
                E.oblige(s, z3.Or(hv(fp) != 0, boolv(s.ghost['acq'] is not None)), 'postcondition', 'without the function the provider is tried')
                if s.ghost['acq'] is True:
                    E.oblige(s, bv(R.get(s, 'm_cryptProv'), 64) == prov, 'postcondition', 'the provider acquired is kept')
            continue
        has = z3.Bool('hasFunction')
        R.set(st, 'm_rtlGenRandom', Ptr(0, hv(fp)))
        R.set(st, 'm_cryptProvIsValid', bv(z3.Bool('hasProvider'), 8))
        R.set(st, 'm_cryptProv', prov)
        none = z3.And(hv(fp) == 0, z3.Not(z3.Bool('hasProvider')))
        if what == 'fill':
            before = FArr.base(8, 'before')
            buf = E.new_arr(st, 1, {0: 1}, n + 16, 'buffer', {0: before})
            E.targets.append('GenRandom::fillBuffer')
            for s, o in E.exec_fn(st, E.find_fn(r'^GenRandom::fillBuffer\('), [R.ptr, Ptr(buf.oid, w64(8)), n]):
                if not isinstance(o, Ret):
                    E.oblige(s, False, 'exception', 'no exception')
                    continue
                ok, gen = boolv(o.v), s.ghost['gen']
                fa = s.mem[buf.oid].fields[0][1]
                E.oblige(s, ok == boolv(gen is not None and gen is not False), 'postcondition', 'success exactly when random bytes were drawn')
                E.oblige(s, z3.Implies(none, z3.Not(ok)), 'postcondition', 'no source, no success')
                E.oblige(s, z3.Or(none, boolv(gen is not None)), 'postcondition', 'a source is used when there is one')
                if gen is not None and gen is not False:
                    E.oblige(s, gen == z3.Extract(31, 0, n), 'postcondition', 'the whole buffer is filled')
                    E.oblige(s, z3.Implies(z3.ULT(K, n), bv(fa.read(K + 8), 8) == bv(rnd.read(K), 8)), 'postcondition', 'every byte is random')
                E.oblige(s, z3.Implies(z3.Or(z3.ULT(K, 8), z3.And(z3.UGE(K, n + 8), z3.ULT(K, n + 16))), bv(fa.read(K), 8) == bv(before.read(K), 8)), 'postcondition', 'nothing outside the buffer is written')
            continue
        r = E.new_cells(st, 32, 'ret')
        E.targets.append('GenRandom::randomBytes')
        for s, o in E.exec_fn(st, E.find_fn(r'^GenRandom::randomBytes\('), [r, R.ptr, n]):
            if not isinstance(o, Ret):
                E.oblige(s, bool(s.ghost['bad']), 'exception', 'fails only if the system does')
                continue
            q = seq_get(E, s, r)
            gen = s.ghost['gen']
            if gen is None or gen is False:
                E.oblige(s, bv(q.len, 64) == 0, 'postcondition', 'nothing when there are no random bytes')
                E.oblige(s, z3.Or(none, boolv(gen is False)), 'postcondition', 'nothing only when there is no source')
            else:
                fa = farrs_of(E, s, q)[0]
                E.oblige(s, z3.And(bv(q.len, 64) == n, z3.Implies(z3.ULT(K, n), bv(fa.read(K), 8) == bv(rnd.read(K), 8))), 'postcondition', 'as many random bytes as asked for')


def unit_hex(ctx):
    """GenRandom::randomHexString: two digits for each byte"""
    E = ctx.mk([GR])
    st = State()
    apis(E, st)
    R = new_object(E, st, 'GenRandom', 'random')
    n, L, K = (z3.BitVec(x, 64) for x in ('n', 'L', 'K'))
    st.assume(z3.And(z3.ULE(n, 1 << 20), z3.Or(L == 0, L == n)))
    E.inputs.update(n=n, L=L, K=K)
    f = FArr.base(8, 'bytes').set(L, 0)

    def rb(E, s, a, ci):
        E.oblige(s, bv(a[2], 64) == n, 'precondition', 'as many bytes as asked for')
        b = s.copy()
        g(b, bad=True)
        seq_put(E, s, a[0], new_seq(E, s, 'char', L, {0: f}, True, 'bytes'))
        return Outs([(s, Ret(None)), xthrow(E, b, BADALLOC, 'oom')])
    contract(E, r'^GenRandom::randomBytes\(', rb, 'GenRandom::randomBytes: that many random bytes, or none (unit random)')
    r = E.new_cells(st, 32, 'ret')
    nib = lambda v: z3.If(z3.ULT(v, 10), z3.ZeroExt(8, v) + ord('0'), z3.ZeroExt(8, v) + ord('a') - 10)

    def digits(E, s, upto):
        q = seq_get(E, s, r)
        fa = farrs_of(E, s, q)[0]
        by = bv(f.read(K), 8)
        return z3.Implies(z3.ULT(K, upto), z3.And(bv(fa.read(2 * K), 16) == nib(z3.LShR(by, 4)), bv(fa.read(2 * K + 1), 16) == nib(by & 15)))
    E.loops = [LoopSpec('bytes', lambda c: [('within the bytes', z3.ULE(bv(c['i'], 64), L)), ('the digits so far', digits(E, c.st, bv(c['i'], 64))), ('the length', bv(seq_get(E, c.st, r).len, 64) == 2 * L)],
                        fn=r'randomHexString', vars={'i': ('i', 64)}, decreases=lambda c: L - bv(c['i'], 64))]
    E.targets.append('GenRandom::randomHexString')
    for s, o in E.exec_fn(st, E.find_fn(r'^GenRandom::randomHexString\('), [r, R.ptr, n]):
        if isinstance(o, Ret):
            E.oblige(s, z3.And(bv(seq_get(E, s, r).len, 64) == 2 * L, digits(E, s, L)), 'postcondition', 'two digits for each random byte')
        elif isinstance(o, Throw):
            E.oblige(s, bool(s.ghost['bad']), 'exception', 'fails only if the system does')


def unit_unique(ctx):
    """GenRandom::uniqueName: process, counter, time and 128 random bits"""
    E = ctx.mk([GR])
    st = State()
    apis(E, st)
    builder(E)
    R = new_object(E, st, 'GenRandom', 'random')
    pid, hi, lo = z3.BitVec('pid', 32), z3.BitVec('timeHigh', 32), z3.BitVec('timeLow', 32)
    g(st, ctr=None, rand=None)
    handler(E, r'^GetCurrentProcessId$', lambda E, s, a, ci: pid, 'GetCurrentProcessId')

    def now(E, s, a, ci):
        E.store_raw(s, a[0], lo, 4)
        E.store_raw(s, padd(a[0], 4), hi, 4)
    handler(E, r'^GetSystemTimeAsFileTime$', now, 'GetSystemTimeAsFileTime')
    c0 = z3.BitVec('counter', 32)

    def inc(E, s, a, ci):
        E.oblige(s, s.ghost['ctr'] is None and E.oid_global.get(a[0].oid, '').endswith('g_pipeCounter'), 'precondition', 'the counter goes up once')
        g(s, ctr=c0 + 1)
        return c0 + 1
    handler(E, r'^_?InterlockedIncrement$', inc, 'InterlockedIncrement: no two calls return the same')
    gv = E.global_ptr('@g_pipeCounter' if False else [n for m in E.mods for n in m.globals if 'g_pipeCounter' in n][0], E.ctx.module(GR))
    E.init_global(st, gv.oid)
    E.store_raw(st, gv, c0, 4)

    def rmw(E, s, op, p, v):
        E.oblige(s, p.oid == gv.oid and op == 'add' and z3.is_true(z3.simplify(bv(v, 32) == 1)) and s.ghost['ctr'] is None, 'precondition', 'the counter goes up once, atomically')
        g(s, ctr=c0 + 1)
    E.fn_overrides['atomicrmw'] = rmw

    def rh(E, s, a, ci):
        E.oblige(s, z3.UGE(bv(a[2], 64), 16), 'precondition', 'at least 128 random bits')
        b, c = s.copy(), s.copy()
        text(E, s, a[0], (('id', 'random'),), 'random')
        g(s, rand=True)
        seq_put(E, b, a[0], new_seq(E, b, 'wchar_t', 0, {0: FArr.const(16, 0)}, isstr=True, name='norandom'))
        g(b, rand=False)
        g(c, bad=True)
        return Outs([(s, Ret(None)), (b, Ret(None)), xthrow(E, c, BADALLOC, 'oom')])
    contract(E, r'^GenRandom::randomHexString\(', rh, 'GenRandom::randomHexString (unit hex)')
    r = E.new_cells(st, 32, 'ret')
    E.targets.append('GenRandom::uniqueName')
    n = 0
    for s, o in E.exec_fn(st, E.find_fn(r'^GenRandom::uniqueName\('), [r, R.ptr]):
        if isinstance(o, Ret):
            n += 1
            sx = z3.ZeroExt(32, pid)
            E.oblige(s, s.ghost['ctr'] is not None, 'postcondition', 'the counter is used')
            if s.ghost['ctr'] is None:
                continue
            want = (('dec', False, sx), ('lit', '-'), ('dec', True, z3.SignExt(32, s.ghost['ctr'])), ('lit', '-'), ('hex', None, z3.Concat(hi, lo)))
            E.oblige(s, s.ghost['rand'] is not None, 'postcondition', 'random bits are asked for')
            if s.ghost['rand']:
                want += (('lit', '-'), ('id', 'random'))
            same_pieces(E, s, pieces_of(E, s, r), want, 'the name holds the process, the counter, the time and the random bits')
        elif isinstance(o, Throw):
            E.oblige(s, bool(s.ghost['bad']) or s.ghost['exc'] == 'oom', 'exception', 'fails only if the system does')
    if not n:
        raise Unsupported('no successful path')
