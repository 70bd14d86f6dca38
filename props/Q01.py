from unixad import *

MAIN = unix('main.cc')
SRCS = [MAIN]
BS, QT, SP, TAB = ord('\\'), ord('"'), ord(' '), ord('\t')
MAXARG = 1 << 28

# The arguments: character k of argument i, and the length of argument i (no argument contains NUL)
CH = z3.Function('arg', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
LEN = z3.Function('arglen', z3.BitVecSort(64), z3.BitVecSort(64))
K = z3.BitVec('k', 64)      # an arbitrary position
B = z3.BoolVal


class Parser:
    """Ghost: the Microsoft C runtime's argument splitter, fed with what is appended
    to the command line.  inarg: inside an argument; inq: inside quotes; pend:
    backslashes seen whose meaning is open; out: characters of the argument
    produced; cnt: arguments finished; closed: the last character was a closing
    quote.  Each character produced is obliged to be the next character of
    argument cnt."""

    @staticmethod
    def emit_bs(E, s, G, c, n):
        out, cnt = G['out'], G['cnt']
        E.oblige(s, z3.Implies(z3.And(c, n != 0), z3.And(z3.ULE(n, LEN(cnt)), z3.ULE(out, LEN(cnt) - n))), 'postcondition', 'no more characters than the argument has')
        E.oblige(s, z3.Implies(z3.And(c, z3.UGE(K, out), z3.ULT(K, out + n)), CH(cnt, K) == BS), 'postcondition', 'backslashes stand for the argument\'s backslashes')
        G['out'] = z3.If(c, out + n, out)

    @staticmethod
    def emit(E, s, G, c, ch):
        out, cnt = G['out'], G['cnt']
        E.oblige(s, z3.Implies(c, z3.ULT(out, LEN(cnt))), 'postcondition', 'no more characters than the argument has')
        E.oblige(s, z3.Implies(c, CH(cnt, out) == ch), 'postcondition', 'each character stands for the argument\'s next character')
        G['out'] = z3.If(c, out + 1, out)

    @staticmethod
    def finish(E, s, G, c):
        E.oblige(s, z3.Implies(c, z3.Not(G['inq'])), 'postcondition', 'quotes are closed')
        E.oblige(s, z3.Implies(c, G['out'] == LEN(G['cnt'])), 'postcondition', 'the whole argument was produced')
        G['cnt'] = z3.If(c, G['cnt'] + 1, G['cnt'])
        G['inarg'] = z3.And(z3.Not(c), G['inarg'])
        G['out'] = z3.If(c, w64(0), G['out'])
        G['closed'] = z3.And(z3.Not(c), G['closed'])

    @staticmethod
    def feed(E, s, ch, n):
        """n copies of ch are appended"""
        G = {k: s.ghost[k] for k in ('inarg', 'inq', 'pend', 'out', 'cnt', 'closed')}
        ch, n = bv(ch, 8), bv(n, 64)
        isbs = ch == BS
        some = n != 0
        if not E.must(s, z3.Or(isbs, n == 1, n == 0)):
            raise Unsupported('several copies of a character')
        # backslashes
        c = z3.And(isbs, some)
        # another character
        d = z3.And(z3.Not(isbs), some)
        white = z3.Or(ch == SP, ch == TAB)
        pend0, inarg0, inq0 = G['pend'], G['inarg'], G['inq']
        start = z3.And(z3.Not(inarg0), z3.Or(c, z3.And(d, z3.Not(white))))
        E.oblige(s, z3.Implies(start, z3.ULT(G['cnt'], z3.BitVec('argc', 64))), 'postcondition', 'no argument more than were given')
        G['inarg'] = z3.Or(inarg0, start)
        q = z3.And(d, ch == QT)
        E.oblige(s, z3.Implies(z3.And(q, G['closed']), B(False)), 'postcondition', 'no doubled quote (its meaning depends on the runtime version)')
        Parser.emit_bs(E, s, G, q, z3.LShR(pend0, 1))
        odd = z3.Extract(0, 0, pend0) == 1
        Parser.emit(E, s, G, z3.And(q, odd), ch)
        tog = z3.And(q, z3.Not(odd))
        Parser.emit_bs(E, s, G, z3.And(d, ch != QT), pend0)
        end = z3.And(d, white, z3.Not(inq0), inarg0)
        lit = z3.And(d, ch != QT, z3.Or(inq0, z3.Not(white)))
        Parser.emit(E, s, G, lit, ch)
        G['closed'] = z3.If(some, z3.And(tog, inq0), G['closed'])
        G['inq'] = z3.If(tog, z3.Not(inq0), inq0)
        Parser.finish(E, s, G, end)
        G['pend'] = z3.If(c, pend0 + n, z3.If(d, w64(0), pend0))
        g(s, **{k: z3.simplify(v) for k, v in G.items()})


def unit(ctx):
    E = ctx.mk([MAIN])
    st = State()
    N = z3.BitVec('argc', 64)
    E.inputs['argc'] = N
    st.assume(z3.ULE(N, 1 << 32))
    argv = E.new_cells(st, 24, 'argv')
    g(st, inarg=B(False), inq=B(False), pend=w64(0), out=w64(0), cnt=w64(0), closed=B(False), no32=w64(2 ** 64 - 1), no9=w64(2 ** 64 - 1))
    cache = {}

    def elem(s, i):
        """argument i as a std::string of LEN(i) characters"""
        i = z3.simplify(bv(i, 64))
        key = i.get_id()
        m = LEN(i)
        s.assume(z3.ULE(m, MAXARG))
        s.assume(z3.Implies(z3.UGT(m, 0), CH(i, w64(0)) != 0))
        if key in cache:
            # the same object, whichever path looked at it first
            _, p, oid, objs = cache[key]
            for o, ob in objs.items():
                if o not in s.mem:
                    s.mem[o] = ob
            return p
        p = E.new_cells(s, 32, 'argument')
        f = FArr.fun(8, lambda k: CH(i, bv(k, 64)))
        q = new_seq(E, s, 'char', m, {0: f.set(m, 0)}, True, 'argtext')
        seq_put(E, s, p, q)
        cache[key] = (i, p, q.oid, {o: s.mem[o] for o in (p.oid, q.oid)})
        return p

    def vec(E, s, args, ci, e, meth):
        if args[0].oid != argv.oid:
            raise Unsupported('another vector of strings')
        if meth == 'size':
            return N
        if meth == 'empty':
            return N == 0
        if meth == 'operator[]':
            E.oblige(s, z3.ULT(bv(args[1], 64), N), 'memory', 'vector index in range')
            g(s, no32=w64(2 ** 64 - 1), no9=w64(2 ** 64 - 1))
            return elem(s, args[1])
        raise Unsupported('vector<string>::' + meth)
    E.fn_overrides['vec:string'] = vec

    def argof(s, p):
        for i, q, oid, _ in cache.values():
            if p.oid == oid:
                return i
        raise Unsupported('not an argument')

    def strchr(E, s, args, ci):
        i = argof(s, args[0])
        if not E.must(s, bv(args[0].off, 64) == 0):
            raise Unsupported('strchr inside an argument')
        c = z3.Extract(7, 0, bv(args[1], 32))
        a, b = s.copy(), s
        pos = fresh('at', 64)
        a.assume(z3.And(z3.ULT(pos, LEN(i)), CH(i, pos) == c))
        # not found: for every position; instantiated where a character is looked at
        c = z3.simplify(c)
        if z3.is_bv_value(c) and c.as_long() in (SP, TAB):
            g(b, **{'no%d' % c.as_long(): i})
        return Outs([(a, Ret(Ptr(args[0].oid, pos))), (b, Ret(Ptr(0, 0)))])
    handler(E, r'^(strchr|std::strchr)', strchr, 'C strchr: finds the character, or there is none at any position')
    E.fn_overrides['cstrlen'] = lambda E, s, p, esz: LEN(argof(s, p)) - bv(p.off, 64)
    res = {}

    def shook(E, s, p, what, data):
        if p.oid == ret.oid:
            if what == 'append':
                at, n, src, i0 = data
                if isinstance(n, int) and n <= 4:
                    for j in range(n):
                        Parser.feed(E, s, src.read(add64(i0, j)), 1)
                else:
                    E.oblige(s, True, 'lemma', 'copies of one character')
                    v = src.read(i0)
                    w = src.read(add64(i0, K))
                    if not (v is w or (isinstance(v, int) and v == w) or (is_sym(v) and is_sym(w) and v.eq(w))):
                        raise Unsupported('append of a text')
                    Parser.feed(E, s, v, n)
            else:
                raise Unsupported('the command line is changed by ' + what)
    E.fn_overrides['seqhook'] = shook
    ret = E.new_cells(st, 32, 'result')

    def done_arg(G):
        """if the command line ended here, argument cnt would be complete"""
        m = LEN(G['cnt'])
        return z3.And(G['inarg'], z3.Not(G['inq']), z3.ULE(G['pend'], m), G['out'] == m - G['pend'],
                      z3.Implies(z3.And(z3.UGE(K, G['out']), z3.ULT(K, m)), CH(G['cnt'], K) == BS))

    def inv_outer(c):
        G, i = c.st.ghost, bv(c['argIndex'], 64)
        return [('arguments before this one are complete on the command line',
                 z3.If(i == 0, z3.And(z3.Not(G['inarg']), z3.Not(G['inq']), G['pend'] == 0, G['out'] == 0, G['cnt'] == 0, z3.Not(G['closed'])),
                       z3.And(done_arg(G), G['cnt'] == i - 1, z3.Implies(G['closed'], G['pend'] == 0)))),
                ('index in range', z3.ULE(i, N))]
    outer = LoopSpec('arguments', inv_outer, fn=r'^argvToCommandLine', vars={'argIndex': ('i', 64)}, decreases=lambda c: N - bv(c['argIndex'], 64))
    outer.pred = loop_calls(r'strchr')

    def head_inner(c):
        s = c.st
        p = c['p']
        i, a = bv(p.off, 64), argof(s, p)
        m = LEN(a)
        s.assume(z3.Implies(z3.ULT(i, m), CH(a, i) != 0))       # an instance of: no NUL inside an argument
        for ch in (SP, TAB):
            s.assume(z3.Implies(z3.And(s.ghost['no%d' % ch] == a, z3.ULT(i, m)), CH(a, i) != ch))   # an instance of strchr's result

    def inv_inner(c):
        G = c.st.ghost
        p = c['p']
        a = argof(c.st, p)
        m, i = LEN(a), bv(p.off, 64)
        bs = z3.SignExt(32, bv(c['bsCount'], 32))
        quote = boolv(c['quote'])
        return [('position in the argument', z3.ULE(i, m)), ('backslash count', z3.And(bv(c['bsCount'], 32) >= 0, z3.ULE(bs, i))),
                ('the last characters are backslashes', z3.Implies(z3.And(z3.UGE(K, i - bs), z3.ULT(K, i)), CH(a, K) == BS)),
                ('the splitter is in this argument', z3.And(G['cnt'] == a, z3.Not(G['closed']), G['inq'] == quote, G['inarg'] == z3.Or(quote, i != bs))),
                ('an argument without quotes has no white space', z3.Or(quote, z3.And(G['no32'] == a, G['no9'] == a, m != 0))),
                ('what was read, less those, is on the command line', z3.And(G['pend'] == 0, G['out'] == i - bs))]
    inner = LoopSpec('characters', inv_inner, fn=r'^argvToCommandLine', vars={'p': ('ptr',), 'bsCount': ('i', 32), 'quote': ('i', 8)},
                     on_head=head_inner, decreases=lambda c: LEN(argof(c.st, c['p'])) - bv(c['p'].off, 64))
    inner.pred = lambda E, f, h: not outer.pred(E, f, h)
    E.loops = [outer, inner]
    E.merge = False
    E.targets.append('argvToCommandLine')
    for s, o in E.exec_fn(st, E.find_fn(r'^argvToCommandLine\('), [ret, argv]):
        if not isinstance(o, Ret):
            continue
        G = dict(s.ghost)
        E.oblige(s, z3.Implies(N == 0, z3.Not(G['inarg'])), 'postcondition', 'no argument, no text')
        fin = z3.And(G['inarg'])
        Parser.emit_bs(E, s, G, fin, G['pend'])
        Parser.finish(E, s, G, fin)
        E.oblige(s, G['cnt'] == N, 'postcondition', 'the command line splits into exactly the arguments')


UNITS = [('argvToCommandLine', unit)]
HARNESS = ['h_q01']
ASSUMPTIONS = ['arguments contain no NUL character (they come from the C argv) and are shorter than 2^28 bytes',
               'the splitter specified is that of the Microsoft C runtime for arguments after the program name; for the program name the same text is obtained when it contains no quote and does not end in a backslash']
RULE = 'harness: every argument of up to 6 characters over backslash, quote, space, tab and two letters, alone and between others, and random argument lists, split again by an independent splitter; distinct = argument lists by hash'
