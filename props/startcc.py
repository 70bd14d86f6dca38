"""Start-up of the agent under contract: main.cc and the Agent constructor (property L03)."""
from agentcc import *
from libcc import text, pieces_of, lit_at, crit, builder, same_pieces
from rpc import *

MAIN = 'src/agent/main.cc'


def unit_main(ctx):
    """main: the command line the library writes becomes the Agent's parameters"""
    E = ctx.mk([MAIN])
    st = State()
    g(st, made=None, ran=0, other=())
    argc = z3.BitVec('argc', 32)
    E.inputs['argc'] = argc
    st.assume(z3.And(argc >= 1, argc <= 1 << 20))
    N = 6
    args = [E.new_cells(st, 16, 'argv%d' % i) for i in range(N)]
    av = E.new_cells(st, 8 * N, 'argv')
    for i, a in enumerate(args):
        E.store_raw(st, padd(av, 8 * i), a, 8)
    idx = {a.oid: i for i, a in enumerate(args)}
    num = [z3.BitVec('number%d' % i, 64) for i in range(N)]
    eqs = {}

    def split(E, s, a, ci):
        E.store_raw(s, a[1], argc, 4)
        return av
    handler(E, r'^GetCommandLineW$', lambda E, s, a, ci: E.new_cells(s, 16, 'cmdline'), 'GetCommandLineW')
    handler(E, r'^CommandLineToArgvW$', split, 'CommandLineToArgvW: the arguments of the command line')

    def cmp(E, s, a, ci):
        if a[0].oid not in idx:
            raise Unsupported('comparison of something else')
        i, l = idx[a[0].oid], lit_at(E, s, a[1])
        E.oblige(s, argc > i, 'precondition', 'only arguments that are there are looked at')
        b = eqs.setdefault((i, l), z3.Bool('arg%d=%s' % (i, l)))
        for (j, m), c in eqs.items():
            if j == i and m != l:
                s.assume(z3.Not(z3.And(b, c)))
        return z3.If(b, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
    handler(E, r'^wcscmp(\(|$)', cmp, 'C wcscmp: equal or not')

    def wctor(E, s, a, ci):
        if a[1].oid not in idx:
            raise Unsupported('string from something else')
        E.oblige(s, argc > idx[a[1].oid], 'precondition', 'only arguments that are there are looked at')
        text(E, s, a[0], (('id', idx[a[1].oid]),), 'arg', True)
    handler(E, r'^(?:.* )?wstring::(?:wstring|basic_string)(?:<.*>)?\(wchar_t const\*, std::allocator', wctor, 'libstdc++ std::basic_string')

    def u8(E, s, a, ci):
        ps = pieces_of(E, s, a[1])
        if len(ps) != 1 or ps[0][0] != 'id':
            raise Unsupported('conversion of something else')
        n = fresh('len', 64)
        s.assume(z3.ULE(n, 1 << 20))
        q = new_seq(E, s, 'char', n, {0: FArr.base(8, 'u8').set(n, 0)}, isstr=True, name='u8')
        seq_put(E, s, a[0], q)
        g(s, **{'arg:%s' % q.oid: ps[0][1]})
    handler(E, r'^utf8FromWide\(', u8, 'utf8FromWide: the same characters (property D02)')

    def conv(w, base10=True):
        def f(E, s, a, ci):
            i = s.ghost.get('arg:%s' % a[0].oid)
            if i is None:
                raise Unsupported('number in something else')
            if base10 and len(a) > 1:
                E.oblige(s, bv(a[2], 32) == 10, 'precondition', 'the number is decimal')
            return num[i] if w == 64 else z3.Extract(31, 0, num[i])
        return f
    handler(E, r'^(strtoll|_strtoi64|strtoull|_strtoui64)(\(|$)', conv(64), 'C strtoll: the number a decimal string stands for')
    handler(E, r'^(atoi|strtol|atol)(\(|$)', conv(32), 'C atoi: the number a decimal string stands for')

    def made(E, s, a, ci):
        E.oblige(s, s.ghost['made'] is None, 'precondition', 'one agent')
        E.oblige(s, argc == 6, 'precondition', 'an agent needs exactly five parameters')
        E.oblige(s, a[1].oid == args[1].oid, 'precondition', 'the control pipe is the first parameter')
        E.oblige(s, bv(a[2], 64) == num[2], 'precondition', 'the flags are the second parameter, all 64 bits')
        for i, w in ((3, 'mouse mode'), (4, 'width'), (5, 'height')):
            E.oblige(s, bv(a[i], 32) == z3.Extract(31, 0, num[i]), 'precondition', 'the %s is parameter %d' % (w, i))
        g(s, made=a[0])
    contract(E, r'^Agent::Agent\(', made, 'Agent::Agent (unit constructor)')
    handler(E, r'^Agent::~Agent\(', lambda E, s, a, ci: None, 'Agent::~Agent')

    def run(E, s, a, ci):
        E.oblige(s, s.ghost['made'] == a[0] if s.ghost['made'] is not None else False, 'precondition', 'the agent that was made runs')
        g(s, ran=s.ghost['ran'] + 1)
    handler(E, r'^EventLoop::run\(', run, 'EventLoop::run')
    oth = lambda n: lambda E, s, a, ci: g(s, other=s.ghost['other'] + ((n,) + tuple(a),))
    handler(E, r'^handleCreateDesktop\(', oth('desktop'), 'handleCreateDesktop')
    handler(E, r'^debugShowInput\(', oth('show'), 'debugShowInput')
    handler(E, r'^dumpVersionToStdout\(', oth('version'), 'dumpVersionToStdout')
    for n in ('dumpWindowsVersion', 'dumpVersionToTrace'):
        handler(E, r'^%s\(' % n, lambda E, s, a, ci: None, False)
    handler(E, r'^(__mingw_)?v?fprintf(\(|$)|^fwrite$', lambda E, s, a, ci: 0, 'C stdio: a message')
    handler(E, r'^__acrt_iob_func$|^__iob_func$', lambda E, s, a, ci: E.new_cells(s, 64, 'stdio'), False)
    handler(E, r'^__main$', lambda E, s, a, ci: None, False)
    handler(E, r'^agentAssertFail\(', lambda E, s, a, ci: NoReturn(), 'a failed assertion ends the agent')
    f = E.find_fn(r'^main(\(\))?$')
    # the --show-input loop only looks at further arguments (unbounded in number); it is left out
    arg = lambda i, l: eqs.setdefault((i, l), z3.Bool('arg%d=%s' % (i, l)))
    st.assume(z3.Not(arg(1, '--show-input')))
    E.targets.append('main')
    E.merge = False
    for s, o in E.exec_fn(st, f, []):
        if not isinstance(o, Ret):
            E.oblige(s, False, 'exception', 'main does not throw')
            continue
        desk = z3.And(argc == 3, arg(2, '--create-desktop'))
        ver = z3.And(argc == 2, arg(1, '--version'))
        E.oblige(s, (argc == 6) == boolv(s.ghost['made'] is not None), 'postcondition', 'five parameters start an agent, and nothing else does')
        E.oblige(s, s.ghost['ran'] == (1 if s.ghost['made'] is not None else 0), 'postcondition', 'the agent runs')
        d = [x for x in s.ghost['other'] if x[0] == 'desktop']
        E.oblige(s, desk == boolv(bool(d)), 'postcondition', 'a desktop is created exactly on request')
        E.oblige(s, not d or (len(d) == 1 and d[0][1].oid == args[1].oid), 'postcondition', 'the desktop request has the control pipe')
        E.oblige(s, ver == boolv(any(x[0] == 'version' for x in s.ghost['other'])), 'postcondition', 'the version is printed exactly on request')


def unit_agent_ctor(ctx):
    """Agent::Agent: the configuration reaches the pipes, terminals, scrapers and input; the greeting names the pipes"""
    E, st, A = agent(ctx)
    install_write(E)
    crit(E)
    mine = {}
    for n in ('control', 'conin', 'conout', 'conerr'):
        P = mine[n] = new_object(E, st, 'NamedPipe', 'pipe_' + n)
        ln = z3.BitVec(n + '.namelen', 64)
        st.assume(z3.ULE(ln, 1 << 20))
        f = FArr.base(16, n + '.name')
        seq_put(E, st, P.p('m_name'), new_seq(E, st, 'wchar_t', ln, {0: f.set(ln, 0)}, isstr=True, name=n))
        mine[n + '.name'] = (ln, f)
    name_ = E.new_cells(st, 16, 'controlPipeName')
    flags, mouse, cols, rows = z3.BitVec('agentFlags', 64), z3.BitVec('mouseMode', 32), z3.BitVec('cols', 32), z3.BitVec('rows', 32)
    for n, v in (('agentFlags', flags), ('mouseMode', mouse), ('cols', cols), ('rows', rows)):
        E.inputs[n] = v
    err = (flags & 1) != 0
    plain = (flags & 2) != 0
    color = z3.Or(z3.Not(plain), (flags & 4) != 0)
    cl = lambda v, m: z3.If(v < m, v, z3.BitVecVal(m, 32))
    size = z3.Concat(z3.Extract(15, 0, cl(rows, 2000)), z3.Extract(15, 0, cl(cols, 2500)))
    g(st, terms=(), scr=(), inp=(), sentto=None, pbuf=None, ebuf=None)
    PB, EB = E.new_cells(st, 16, 'primaryBuffer'), E.new_cells(st, 16, 'errorBuffer')
    for n in ('EventLoop::EventLoop', 'EventLoop::~EventLoop', 'Win32Console::Win32Console'):
        handler(E, r'^%s\(' % n, lambda E, s, a, ci: None, n)
    handler(E, r'^Win32ConsoleBuffer::~Win32ConsoleBuffer|^Scraper::~Scraper|^Terminal::~Terminal|^ConsoleInput::~ConsoleInput', lambda E, s, a, ci: None, False)
    handler(E, r'^agentShutdown\(', lambda E, s, a, ci: None, False)
    handler(E, r'^EventLoop::setPollInterval\(', lambda E, s, a, ci: None, 'EventLoop::setPollInterval')
    handler(E, r'^Win32Console::setTitle\(', lambda E, s, a, ci: None, 'Win32Console::setTitle')
    handler(E, r'^(.*::)?detectNewWindows10Console\(', lambda E, s, a, ci: None, 'detectNewWindows10Console')
    handler(E, r'^(GetStdHandle|SetConsoleCtrlHandler)$', lambda E, s, a, ci: Ptr(0, z3.BitVec('stdin', 64)) if 'Get' in ci.dn else 1, 'GetStdHandle, SetConsoleCtrlHandler')

    def fails(E, s, a, ci):
        E.oblige(s, z3.Or(cols < 1, rows < 1), 'assertion', 'only an empty size is refused')
        return NoReturn()
    handler(E, r'^agentAssertFail\(', fails, 'a failed assertion ends the agent')

    def connect(E, s, a, ci):
        E.oblige(s, a[1].oid == name_.oid, 'precondition', 'the control pipe is the one given')
        return mine['control'].ptr
    contract(E, r'^Agent::connectToControlPipe\(', connect, 'Agent::connectToControlPipe (unit connectToControlPipe)')

    def server(E, s, a, ci):
        k_ = lit_at(E, s, a[2])
        E.oblige(s, k_ in ('conin', 'conout', 'conerr'), 'precondition', 'a data pipe')
        if k_ not in mine:
            raise Unsupported('another pipe')
        E.oblige(s, z3.Extract(0, 0, bv(a[1], 8 if z3.is_bv(a[1]) and a[1].size() == 8 else 1)) == (0 if k_ == 'conin' else 1), 'precondition', 'output pipes are written, the input pipe is read')
        E.oblige(s, z3.Or(boolv(k_ != 'conerr'), err), 'precondition', 'the error pipe is made only when asked for')
        return mine[k_].ptr
    contract(E, r'^Agent::createDataServerPipe\(', server, 'Agent::createDataServerPipe (unit createDataServerPipe)')

    def prim(E, s, a, ci):
        E.oblige(s, (bv(View(E, 'Agent', a[1]).get(s, 'm_useConerr'), 8) != 0) == err, 'precondition', 'the separate error output is as configured')
        E.store_raw(s, a[0], PB, 8)
    contract(E, r'^Agent::openPrimaryBuffer\(', prim, 'Agent::openPrimaryBuffer')
    contract(E, r'^Win32ConsoleBuffer::createErrorBuffer\(', lambda E, s, a, ci: (E.oblige(s, err, 'precondition', 'an error buffer only when asked for'), E.store_raw(s, a[0], EB, 8), None)[2], 'Win32ConsoleBuffer::createErrorBuffer')
    contract(E, r'^Agent::writePacket\(', c_write_packet, 'Agent::writePacket (property B02)')

    def b1(v):
        return bv(v, 8 if z3.is_bv(v) and v.size() == 8 else 1) if not isinstance(v, bool) else z3.BitVecVal(int(v), 1)

    def term(E, s, a, ci):
        g(s, terms=s.ghost['terms'] + ((a[0].oid, a[1].oid, z3.Extract(0, 0, b1(a[2])), z3.Extract(0, 0, b1(a[3]))),))
    handler(E, r'^Terminal::Terminal\(', term, 'Terminal::Terminal: keeps the pipe and the two modes')

    def scraper(E, s, a, ci):
        t = E.load_raw(s, a[3], 8, ('ptr',))
        E.store_raw(s, a[3], Ptr(0, 0), 8)
        sz = bv(E.load_raw(s, a[4], 4, None), 32) if isinstance(a[4], Ptr) else bv(a[4], 32)
        g(s, scr=s.ghost['scr'] + ((a[0].oid, a[1], a[2].oid, t.oid, sz),))
    handler(E, r'^Scraper::Scraper\(', scraper, 'Scraper::Scraper: keeps its terminal, buffer and size (property S03)')

    def cinput(E, s, a, ci):
        E.oblige(s, bv(a[2], 32) == mouse, 'precondition', 'the input gets the configured mouse mode')
        E.oblige(s, hv(a[1]) == z3.BitVec('stdin', 64), 'precondition', 'the input goes to the console')
        g(s, inp=s.ghost['inp'] + (a[0].oid,))
    handler(E, r'^ConsoleInput::ConsoleInput\(', cinput, 'ConsoleInput::ConsoleInput: keeps the mouse mode')
    E.merge = False
    E.targets.append('Agent::Agent')
    bit = lambda b: z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    for s, o in E.exec_fn(st, E.find_fn(r'^Agent::Agent\('), [A.ptr, name_, flags, mouse, cols, rows]):
        if not isinstance(o, Ret):
            if isinstance(o, Throw):
                E.oblige(s, False, 'exception', 'no exception')
            continue
        E.oblige(s, z3.And(cols >= 1, rows >= 1), 'postcondition', 'an empty size is refused')
        two = len(s.ghost['terms']) == 2
        E.oblige(s, err == boolv(two), 'postcondition', 'an error terminal exactly when asked for')
        outs = ['conout'] + (['conerr'] if two else [])
        E.oblige(s, [t[1] for t in s.ghost['terms']] == [mine[n].ptr.oid for n in outs] or [t[1] for t in s.ghost['terms']] == [mine[n].ptr.oid for n in reversed(outs)], 'postcondition', 'each terminal writes its own pipe')
        for t in s.ghost['terms']:
            E.oblige(s, z3.And(t[2] == bit(plain), t[3] == bit(color)), 'postcondition', 'plain and colour output as configured')
        bypipe = {t[1]: t[0] for t in s.ghost['terms']}
        bybuf = {x[2]: x for x in s.ghost['scr']}
        E.oblige(s, len(s.ghost['scr']) == len(outs), 'postcondition', 'one scraper for each terminal')
        for n, b, m in (('conout', PB, 'm_primaryScraper'),) + ((('conerr', EB, 'm_errorScraper'),) if two else ()):
            x = bybuf.get(b.oid)
            E.oblige(s, x is not None and x[3] == bypipe.get(mine[n].ptr.oid) and A.get(s, m, True).oid == x[0], 'postcondition', 'the %s scraper reads its own buffer for its own terminal' % n)
            if x is not None:
                E.oblige(s, x[4] == size, 'postcondition', 'the configured size, limited to what the console can hold')
        E.oblige(s, len(s.ghost['inp']) == 1, 'postcondition', 'one console input')
        for n in ('control', 'conin', 'conout') + (('conerr',) if two else ()):
            E.oblige(s, A.get(s, 'm_%sPipe' % n, True).oid == mine[n].ptr.oid, 'postcondition', 'the pipes are kept')
        if not two:
            E.oblige(s, hv(A.get(s, 'm_conerrPipe', True)) == 0, 'postcondition', 'no error pipe')
        E.oblige(s, z3.And((bv(A.get(s, 'm_useConerr'), 8) == 1) == err, (bv(A.get(s, 'm_plainMode'), 8) == 1) == plain, bv(A.get(s, 'm_mouseMode'), 32) == mouse), 'postcondition', 'the flags are kept')
        for n in ('m_autoShutdown', 'm_exitAfterShutdown', 'm_closingOutputPipes'):
            E.oblige(s, bv(A.get(s, n), 8) == 0, 'postcondition', 'nothing is shutting down')
        if s.ghost['nsent'] != 1:
            E.oblige(s, False, 'postcondition', 'one greeting is sent')
            continue
        m = s.ghost['sent'][0]
        if ob_kinds(E, s, m, ['raw64', 'w', 'w'] + (['w'] if two else []), 'the greeting names the input, output and (if asked for) error pipe'):
            for it, n in zip(m[1:], ('conin', 'conout', 'conerr')):
                ln, f = mine[n + '.name']
                E.oblige(s, wstr_is(E, s, it, f, ln), 'postcondition', 'the name of the %s pipe' % n)
