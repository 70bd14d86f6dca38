"""Parser for the textual LLVM IR that clang 18 prints (opaque pointers).

Functions are kept as text and parsed on first use.  Nothing here interprets;
the output is plain python data.
"""
import re, subprocess

TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<comment>;[^\n]*)
  | (?P<cstr>c"(?:[^"])*")
  | (?P<str>"(?:[^"])*")
  | (?P<loc>%"[^"]+"|%[-a-zA-Z$._0-9]+)
  | (?P<glob>@"[^"]+"|@[-a-zA-Z$._0-9]+)
  | (?P<meta>!"[^"]*"|![a-zA-Z_0-9.]*)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[0-9A-Fa-f]+)
  | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
  | (?P<dots>\.\.\.)
  | (?P<punct>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('llparse: bad token at %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k in ('ws', 'comment'):
            continue
        out.append((k, m.group()))
    return out


# ---- types -----------------------------------------------------------------
# ('i', n) ('ptr',) ('void',) ('float',) ('double',) ('arr', n, t)
# ('struct', (t...), packed) ('named', name) ('fn',) ('label',) ('meta',) ('vec',n,t)

class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise SyntaxError('llparse: expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))
        self.i += 1

    def done(self):
        return self.i >= len(self.t)


INT = re.compile(r'^i[0-9]+$')


def parse_type(T):
    w = T.peek()
    if w == '{':
        T.next()
        el = []
        while not T.accept('}'):
            el.append(parse_type(T))
            T.accept(',')
        t = ('struct', tuple(el), False)
    elif w == '<' and T.peek(1) == '{':
        T.next(); T.next()
        el = []
        while not T.accept('}'):
            el.append(parse_type(T))
            T.accept(',')
        T.expect('>')
        t = ('struct', tuple(el), True)
    elif w == '<':
        T.next()
        n = int(T.next()); T.expect('x')
        e = parse_type(T); T.expect('>')
        t = ('vec', n, e)
    elif w == '[':
        T.next()
        n = int(T.next()); T.expect('x')
        e = parse_type(T); T.expect(']')
        t = ('arr', n, e)
    elif T.kind() == 'loc':
        t = ('named', T.next())
    elif INT.match(w or ''):
        T.next()
        t = ('i', int(w[1:]))
    elif w == 'ptr':
        T.next()
        if T.accept('addrspace'):
            T.expect('('); T.next(); T.expect(')')
        t = ('ptr',)
    elif w in ('void', 'float', 'double', 'label', 'metadata', 'x86_fp80', 'half', 'opaque'):
        T.next()
        t = (w,)
    else:
        raise SyntaxError('llparse: type? %r in %s' % (w, ' '.join(x[1] for x in T.t)[:300]))
    while T.peek() == '(' and t[0] in ('void', 'i', 'ptr', 'named', 'struct', 'arr', 'float', 'double') and looks_fn_type(T):
        skip_parens(T)
        t = ('fn', t)
    return t


def looks_fn_type(T):
    # a '(' after a type, in "call void (ptr, ...) @f(...)"
    d = 0
    j = T.i
    while j < len(T.t):
        v = T.t[j][1]
        if v == '(':
            d += 1
        elif v == ')':
            d -= 1
            if d == 0:
                return j + 1 < len(T.t) and T.t[j + 1][0] in ('glob', 'loc')
        j += 1
    return False


def skip_parens(T):
    T.expect('(')
    d = 1
    while d:
        v = T.next()
        if v == '(':
            d += 1
        elif v == ')':
            d -= 1


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'inreg', 'immarg', 'nofree', 'nest', 'swiftself', 'swifterror', 'allocptr',
               'noreturn', 'writable', 'dead_on_unwind'}
PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'byref', 'inalloca',
                     'range', 'elementtype', 'captures', 'nofpclass'}


def skip_param_attrs(T):
    got = []
    while True:
        w = T.peek()
        if w in PARAM_ATTRS:
            T.next(); got.append(w)
        elif w in PARAM_ATTRS_PAREN:
            T.next()
            got.append(w)
            if T.peek() == '(':
                if w in ('sret', 'byval'):
                    T.expect('(')
                    ty = parse_type(T)
                    T.expect(')')
                    got[-1] = (w, ty)
                else:
                    skip_parens(T)
            else:
                T.next()
        elif T.kind() == 'str':
            T.next()
            if T.accept('='):
                T.next()
        else:
            return got


# ---- values ----------------------------------------------------------------
# ('reg', name) ('glob', name) ('int', v) ('null',) ('undef',) ('zero',)
# ('agg', [ (ty,val) ]) ('cstr', bytes) ('gep', srcty, (ty,base), [(ty,idx)]) ('cast', op, (ty,val), toty)
# ('expr', op, [(ty,val)..]) ('fp', text)

def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(92); i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


CASTS = ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast')


def parse_value(T, ty):
    k = T.kind()
    w = T.peek()
    if k == 'loc':
        return ('reg', T.next())
    if k == 'glob':
        return ('glob', T.next())
    if k == 'cstr':
        T.next()
        return ('cstr', unescape(w[2:-1]))
    if k == 'num':
        T.next()
        if ty[0] in ('float', 'double', 'x86_fp80'):
            return ('fp', w)
        return ('int', int(w, 0))
    if w == 'null':
        T.next(); return ('null',)
    if w in ('undef', 'poison'):
        T.next(); return ('undef',)
    if w == 'zeroinitializer':
        T.next(); return ('zero',)
    if w == 'true':
        T.next(); return ('int', 1)
    if w == 'false':
        T.next(); return ('int', 0)
    if w in ('{', '[', '<'):
        T.next()
        packed = False
        if w == '<' and T.peek() == '{':
            T.next(); packed = True
        close = {'{': '}', '[': ']', '<': '>'}[w] if not packed else '}'
        el = []
        while not T.accept(close):
            et = parse_type(T)
            el.append((et, parse_value(T, et)))
            T.accept(',')
        if packed:
            T.expect('>')
        return ('agg', el)
    if w == 'getelementptr':
        T.next()
        while T.peek() in ('inbounds', 'nuw', 'nusw') or T.peek() == 'inrange':
            T.next()
            if T.peek() == '(' and False:
                skip_parens(T)
        T.expect('(')
        st = parse_type(T); T.expect(',')
        bt = parse_type(T); b = parse_value(T, bt)
        idx = []
        while T.accept(','):
            T.accept('inrange')
            it = parse_type(T); idx.append((it, parse_value(T, it)))
        T.expect(')')
        return ('gep', st, (bt, b), idx)
    if w in CASTS:
        T.next(); T.expect('(')
        t1 = parse_type(T); v1 = parse_value(T, t1); T.expect('to'); t2 = parse_type(T); T.expect(')')
        return ('cast', w, (t1, v1), t2)
    if w in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
        T.next()
        while T.peek() in ('nuw', 'nsw', 'exact'):
            T.next()
        T.expect('(')
        t1 = parse_type(T); v1 = parse_value(T, t1); T.expect(',')
        t2 = parse_type(T); v2 = parse_value(T, t2); T.expect(')')
        return ('expr', w, [(t1, v1), (t2, v2)])
    if w == 'metadata' or k == 'meta':
        return ('meta',)
    raise SyntaxError('llparse: value? %r in %s' % (w, ' '.join(x[1] for x in T.t)[:400]))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'text')

    def __init__(self, op, res, ty, a, line, text):
        self.op, self.res, self.ty, self.a, self.line, self.text = op, res, ty, a, line, text

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ('name', 'ins')

    def __init__(self, name):
        self.name = name
        self.ins = []

    def succs(self):
        t = self.ins[-1]
        if t.op == 'br':
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [x[1] for x in t.a[2]]
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []


class Function:
    def __init__(self, mod, name, rettype, params, text, internal):
        self.mod, self.name, self.rettype, self.params, self.text = mod, name, rettype, params, text
        self.internal = internal
        self._blocks = None
        self._loops = None
        self.srcline = None

    def __repr__(self):
        return '<fn %s>' % self.name

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        cur = None
        order = []
        lines = self.text
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("[^"]+"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(' '):
                nm = '%' + m.group(1)
                cur = Block(nm); blocks[nm] = cur; order.append(nm)
                continue
            if cur is None:
                # implicit entry label
                cur = Block('%__entry'); blocks[cur.name] = cur; order.append(cur.name)
            # multi-line: switch, landingpad clauses, invoke "to label"
            if ' switch ' in ln or s.startswith('switch '):
                while ']' not in s.split('!dbg')[0].rsplit('[', 1)[1]:
                    s += ' ' + lines[i].strip(); i += 1
            elif 'landingpad' in s:
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            elif re.match(r'^(%\S+ = )?invoke\b', s):
                while 'unwind label' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            cur.ins.append(self.parse_instr(s))
        self._blocks = blocks
        self.entry = order[0]
        self.order = order

    def live_in(self, block):
        """the locals whose value may be loaded from block on before it is stored"""
        if getattr(self, '_live', None) is None:
            use, kill, succ = {}, {}, {}
            for n, b in self.blocks.items():
                u, k = set(), set()
                for I in b.ins:
                    if I.op == 'load':
                        m = re.search(r'\bptr (%[^\s,]+)', I.text)
                        if m and m.group(1) not in k:
                            u.add(m.group(1))
                    elif I.op == 'store':
                        m = re.search(r', ptr (%[^\s,]+)', I.text)
                        if m and m.group(1) not in u:
                            k.add(m.group(1))
                use[n], kill[n] = u, k
                succ[n] = ['%' + x.strip('%') if not x.startswith('%') else x for x in re.findall(r'label (%[^\s,]+)', b.ins[-1].text)] if b.ins else []
            live = {n: set(u) for n, u in use.items()}
            ch = True
            while ch:
                ch = False
                for n in live:
                    for x in succ[n]:
                        add = live.get(x, set()) - kill[n] - live[n]
                        if add:
                            live[n] |= add
                            ch = True
            self._live = live
        return self._live.get(block, set())

    def parse_instr(self, s):
        text = s
        line = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            line = self.mod.dbgloc(int(m.group(1)))
        s = re.sub(r',\s*!(?:dbg|srcloc|llvm\.loop|prof|tbaa|noundef|range|heapallocsite|nonnull|align)\s+!\d+', '', s)
        s = re.sub(r',\s*![a-z.]+ !\d+', '', s)
        T = Toks(tokenize(s))
        res = None
        if T.kind() == 'loc' and T.peek(1) == '=':
            res = T.next(); T.next()
        op = T.next()
        if op in ('tail', 'musttail', 'notail'):
            op = T.next()
        I = lambda ty, a, o=op: Instr(o, res, ty, a, line, text)
        if op == 'alloca':
            T.accept('inalloca')
            ty = parse_type(T)
            cnt = None
            if T.accept(',') and T.peek() != 'align':
                ct = parse_type(T); cnt = (ct, parse_value(T, ct))
            return I(('ptr',), (ty, cnt))
        if op == 'load':
            T.accept('atomic'); T.accept('volatile')
            ty = parse_type(T); T.expect(',')
            pt = parse_type(T); p = parse_value(T, pt)
            return I(ty, (p,))
        if op == 'store':
            T.accept('atomic'); T.accept('volatile')
            ty = parse_type(T); v = parse_value(T, ty); T.expect(',')
            pt = parse_type(T); p = parse_value(T, pt)
            return I(ty, (v, p))
        if op == 'getelementptr':
            while T.peek() in ('inbounds', 'nuw', 'nusw'):
                T.next()
            st = parse_type(T); T.expect(',')
            bt = parse_type(T); b = parse_value(T, bt)
            idx = []
            while T.accept(','):
                it = parse_type(T); idx.append((it, parse_value(T, it)))
            return I(('ptr',), (st, b, idx))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv'):
            fl = []
            while T.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast'):
                fl.append(T.next())
            ty = parse_type(T); x = parse_value(T, ty); T.expect(','); y = parse_value(T, ty)
            return I(ty, (x, y, tuple(fl)))
        if op in ('icmp', 'fcmp'):
            pred = T.next()
            ty = parse_type(T); x = parse_value(T, ty); T.expect(','); y = parse_value(T, ty)
            return I(('i', 1), (pred, ty, x, y))
        if op in CASTS or op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
            while T.peek() in ('nneg', 'nuw', 'nsw'):
                T.next()
            t1 = parse_type(T); v = parse_value(T, t1); T.expect('to'); t2 = parse_type(T)
            return I(t2, (t1, v))
        if op == 'select':
            ct = parse_type(T); c = parse_value(T, ct); T.expect(',')
            t1 = parse_type(T); a = parse_value(T, t1); T.expect(',')
            t2 = parse_type(T); b = parse_value(T, t2)
            return I(t1, (c, a, b))
        if op == 'freeze':
            t1 = parse_type(T); a = parse_value(T, t1)
            return I(t1, (a,))
        if op == 'phi':
            ty = parse_type(T)
            inc = []
            while True:
                T.expect('[')
                v = parse_value(T, ty); T.expect(','); lb = T.next(); T.expect(']')
                inc.append((v, lb))
                if not T.accept(','):
                    break
            return I(ty, inc)
        if op == 'br':
            if T.peek() == 'label':
                T.next()
                return I(None, (T.next(),))
            ty = parse_type(T); c = parse_value(T, ty); T.expect(','); T.expect('label'); a = T.next()
            T.expect(','); T.expect('label'); b = T.next()
            return I(None, (c, a, b))
        if op == 'switch':
            ty = parse_type(T); v = parse_value(T, ty); T.expect(','); T.expect('label'); d = T.next()
            T.expect('[')
            cases = []
            while not T.accept(']'):
                ct = parse_type(T); cv = parse_value(T, ct); T.expect(','); T.expect('label'); cases.append((cv[1], T.next()))
            return I(ty, (v, d, cases))
        if op == 'ret':
            if T.peek() == 'void':
                return I(('void',), None)
            ty = parse_type(T)
            return I(ty, parse_value(T, ty))
        if op == 'unreachable':
            return I(None, None)
        if op == 'resume':
            ty = parse_type(T)
            return I(ty, (parse_value(T, ty),))
        if op == 'landingpad':
            ty = parse_type(T)
            cleanup = False
            clauses = []
            while not T.done():
                w = T.next()
                if w == 'cleanup':
                    cleanup = True
                else:
                    t1 = parse_type(T); clauses.append((w, parse_value(T, t1)))
            return I(ty, (cleanup, clauses))
        if op == 'extractvalue':
            ty = parse_type(T); v = parse_value(T, ty)
            idx = []
            while T.accept(','):
                idx.append(int(T.next()))
            return I(ty, (v, idx))
        if op == 'insertvalue':
            ty = parse_type(T); v = parse_value(T, ty); T.expect(',')
            t2 = parse_type(T); e = parse_value(T, t2)
            idx = []
            while T.accept(','):
                idx.append(int(T.next()))
            return I(ty, (v, t2, e, idx))
        if op in ('call', 'invoke'):
            while T.peek() in ('fast', 'nnan', 'ccc', 'fastcc', 'coldcc', 'x86_stdcallcc', 'x86_thiscallcc', 'win64cc') or \
                    T.peek() in PARAM_ATTRS or T.peek() in PARAM_ATTRS_PAREN:
                skip_param_attrs(T)
                if T.peek() in ('fast', 'nnan', 'ccc', 'fastcc', 'coldcc', 'x86_stdcallcc', 'x86_thiscallcc', 'win64cc'):
                    T.next()
            rt = parse_type(T)
            if rt[0] == 'fn':
                rt = rt[1]
            if T.peek() == 'asm':
                raise SyntaxError('llparse: inline asm')
            cal = parse_value(T, ('ptr',))
            T.expect('(')
            args = []
            while not T.accept(')'):
                at = parse_type(T)
                if at == ('metadata',):
                    while T.peek() not in (',', ')'):
                        T.next()
                        if T.peek() == '(':
                            skip_parens(T)
                    args.append((at, ('meta',), []))
                    T.accept(',')
                    continue
                att = skip_param_attrs(T)
                args.append((at, parse_value(T, at), att))
                T.accept(',')
            d = {'callee': cal, 'args': args}
            if op == 'invoke':
                while T.peek() != 'to':
                    T.next()
                T.expect('to'); T.expect('label'); d['normal'] = T.next()
                T.expect('unwind'); T.expect('label'); d['unwind'] = T.next()
            return I(rt, d)
        if op == 'atomicrmw':
            T.accept('volatile')
            o2 = T.next()
            pt = parse_type(T); p = parse_value(T, pt); T.expect(',')
            ty = parse_type(T); v = parse_value(T, ty)
            return I(ty, (o2, p, v))
        if op == 'fneg' or op in ( 'cmpxchg', 'fence', 'va_arg', 'extractelement', 'insertelement', 'shufflevector'):
            return I(None, None, 'unsupported:' + op)
        raise SyntaxError('llparse: op? %s' % text)

    # ---- loops -------------------------------------------------------------
    @property
    def loops(self):
        """header -> set of blocks (natural loops; loops sharing a header merged)"""
        if self._loops is not None:
            return self._loops
        B = self.blocks
        succ = {b: B[b].succs() for b in B}
        pred = {b: [] for b in B}
        for b in B:
            for s in succ[b]:
                pred[s].append(b)
        # rpo
        seen = set(); post = []
        st = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s])))
                    break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n; ch = True
        self.rpo = num

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in idom and dom(s, b):
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x); wl.extend(p for p in pred[x] if p in num)
        self._loops = loops
        return loops


class Module:
    def text(self):
        return open(self.path, encoding='latin-1').read()

    def __init__(self, path, tag):
        self.path, self.tag = path, tag
        txt = open(path, encoding='latin-1').read()
        self.linux = 'target triple = "x86_64-unknown-linux' in txt
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.types = {}
        self.aliases = {}
        self._dbg = {}
        self._scopes = {}
        self._tuples = {}
        self._layouts = {}
        lines = txt.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if ln.startswith('define'):
                body = []
                head = ln
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                i += 1
                self._define(head, body)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]+"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls['@' + m.group(1)] = ln
            elif ln.startswith('@'):
                m = re.match(r'^(@(?:"[^"]+"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
                self.globals[m.group(1)] = m.group(2)
            elif ln.startswith('%'):
                m = re.match(r'^(%(?:"[^"]+"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                self.types[m.group(1)] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', ln)
                if m:
                    self._dbg[int(m.group(1))] = (int(m.group(2)), ln)
                    continue
                m = re.match(r'^!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$', ln)
                if m:
                    self._scopes[int(m.group(1))] = (m.group(2), m.group(3))
                    continue
                m = re.match(r'^!(\d+) = (?:distinct )?!\{(.*)\}$', ln)
                if m:
                    self._tuples[int(m.group(1))] = m.group(2)
        self._tycache = {}
        self._glcache = {}

    # ---- class layouts from debug info ------------------------------------
    def layout(self, cls):
        """{member: (byte offset, byte size)} of class cls (qualified by nested names, e.g. 'NamedPipe::IoWorker')"""
        if cls in self._layouts:
            return self._layouts[cls]
        last = cls.split('::')[-1]
        best = None
        for n, (k, b) in self._scopes.items():
            if k != 'DICompositeType' or 'name: "%s"' % last not in b or 'flags: DIFlagFwdDecl' in b:
                continue
            mm = re.search(r'(?<!\w)name: "([^"]*)"', b)
            if mm.group(1) != last:
                continue
            q = self._qual(n)
            if q == cls or q.endswith('::' + cls) or (best is None and q.split('::')[-1] == cls):
                me = re.search(r'elements: !(\d+)', b)
                if not me:
                    continue
                best = int(me.group(1))
                if q == cls:
                    break
        if best is None:
            self._layouts[cls] = None
            return None
        out = {}
        for e in re.findall(r'!(\d+)', self._tuples.get(best, '')):
            k, b = self._scopes.get(int(e), (None, ''))
            if k != 'DIDerivedType' or 'tag: DW_TAG_member' not in b or 'DIFlagStaticMember' in b:
                if k == 'DIDerivedType' and 'DW_TAG_inheritance' in b:
                    bt = re.search(r'baseType: !(\d+)', b)
                    off = re.search(r'offset: (\d+)', b)
                    o = int(off.group(1)) // 8 if off else 0
                    if bt:
                        bk, bb = self._scopes.get(int(bt.group(1)), (None, ''))
                        nm = re.search(r'(?<!\w)name: "([^"]*)"', bb)
                        if nm:
                            sub = self.layout(nm.group(1))
                            for x, (a, z) in (sub or {}).items():
                                out.setdefault(x, (a + o, z))
                continue
            nm = re.search(r'(?<!\w)name: "([^"]*)"', b)
            sz = re.search(r'size: (\d+)', b)
            off = re.search(r'offset: (\d+)', b)
            if nm:
                out[nm.group(1)] = (int(off.group(1)) // 8 if off else 0, int(sz.group(1)) // 8 if sz else 0)
        self._layouts[cls] = out
        return out

    def _qual(self, n):
        names = []
        for _ in range(12):
            k, b = self._scopes.get(n, (None, ''))
            if k is None or k in ('DIFile', 'DICompileUnit'):
                break
            nm = re.search(r'(?<!\w)name: "([^"]*)"', b)
            if nm:
                names.append(nm.group(1))
            sc = re.search(r'(?<!\w)scope: !(\d+)', b)
            if not sc:
                break
            n = int(sc.group(1))
        return '::'.join(reversed(names))

    def class_size(self, cls):
        for n, (k, b) in self._scopes.items():
            if k == 'DICompositeType' and 'name: "%s"' % cls.split('::')[-1] in b and 'FwdDecl' not in b and self._qual(n).endswith(cls):
                m = re.search(r'size: (\d+)', b)
                if m:
                    return int(m.group(1)) // 8
        return None

    def dbgloc(self, n):
        d = self._dbg.get(n)
        if not d:
            return None
        line, ln = d
        m = re.search(r'scope: !(\d+)', ln)
        f = None
        k = int(m.group(1)) if m else None
        for _ in range(20):
            if k is None or k not in self._scopes:
                break
            kind, body = self._scopes[k]
            mf = re.search(r'file: !(\d+)', body)
            if mf and int(mf.group(1)) in self._scopes:
                fb = self._scopes[int(mf.group(1))][1]
                mm = re.search(r'filename: "([^"]*)"', fb)
                f = mm.group(1) if mm else None
                break
            ms = re.search(r'scope: !(\d+)', body)
            k = int(ms.group(1)) if ms else None
        return (f, line)

    def _define(self, head, body):
        m = re.search(r'@("[^"]+"|[-a-zA-Z$._0-9]+)\(', head)
        name = '@' + m.group(1)
        internal = ' internal ' in head[:m.start()]
        T = Toks(tokenize(head[m.end() - 1:]))
        T.expect('(')
        params = []
        while not T.accept(')'):
            if T.accept('...'):
                continue
            ty = parse_type(T)
            att = skip_param_attrs(T)
            nm = T.next() if T.kind() == 'loc' else '%' + str(len(params))
            params.append((ty, nm, att))
            T.accept(',')
        pre = head[len('define'):m.start()]
        # return type: last type in pre
        words = pre.strip()
        words = re.sub(r'\b(dso_local|internal|linkonce_odr|weak_odr|private|available_externally|external|unnamed_addr|local_unnamed_addr|dllexport|dllimport|hidden|noundef|nonnull|zeroext|signext|noalias|x86_stdcallcc|fastcc)\b', ' ', words)
        words = re.sub(r'\b(dereferenceable|dereferenceable_or_null)\(\d+\)', ' ', words)
        words = re.sub(r'\balign \d+', ' ', words)
        Tr = Toks(tokenize(words))
        rt = parse_type(Tr)
        f = Function(self, name, rt, params, body, internal)
        self.funcs[name] = f

    def type_of_name(self, name):
        t = self._tycache.get(name)
        if t is None:
            s = self.types[name]
            if s == 'opaque':
                t = ('opaque',)
            else:
                t = parse_type(Toks(tokenize(s)))
            self._tycache[name] = t
        return t

    def resolve(self, t):
        while t[0] == 'named':
            t = self.type_of_name(t[1])
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        if k == 'x86_fp80':
            return 16
        if k == 'vec':
            return self.size(t)
        raise SyntaxError('align ' + repr(t))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else (b + 15) // 16 * 16
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k in ('arr', 'vec'):
            return t[1] * self.size(t[2])
        if k == 'struct':
            return self.struct_layout(t)[1]
        raise SyntaxError('size ' + repr(t))

    def struct_layout(self, t):
        t = self.resolve(t)
        key = ('L', t)
        r = self._tycache.get(key)
        if r is None:
            off = 0
            offs = []
            al = 1
            for x in t[1]:
                a = 1 if t[2] else self.align(x)
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(x)
            off = (off + al - 1) // al * al
            r = (offs, off)
            self._tycache[key] = r
        return r

    def global_def(self, name):
        """-> (const?, type, init or None)"""
        r = self._glcache.get(name)
        if r is None:
            s = self.globals[name]
            s = re.sub(r',\s*![a-z.]+ !\d+', '', s)
            m = re.match(r'^(.*?)\b(constant|global|alias)\s+(.*)$', s)
            kind = m.group(2)
            if kind == 'alias':
                tgt = re.search(r', ptr (@\S+)$', m.group(3))
                r = self._glcache[name] = ('alias', None, tgt.group(1))
                return r
            T = Toks(tokenize(m.group(3)))
            ty = parse_type(T)
            ext = re.search(r'\b(external|extern_weak)\b', m.group(1)) is not None
            init = None
            if True:
                if not ext:
                    init = parse_value(T, ty)
                r = (kind, ty, init)
            self._glcache[name] = r
        return r


def demangle(names):
    names = list(names)
    if not names:
        return {}
    p = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))
