from conin import *
import re, std

SRC_ = 'src/agent/InputMap.cc'
SRCS = [SRC_]
LIMIT = 300
HARNESS = [('h_input', ['--mode', 'i05'])]
NODE, BRANCH, TINY = 88, 256, 8


def node_lay(E):
    L = layout(E, 'InputMap::Node')
    K = layout(E, 'InputMap::Key')
    n = class_size(E, 'InputMap::Node')
    if L['childCount'][1] != 4 or n - L['u'][0] != 72:
        raise Unsupported('the node is laid out differently')
    return L, K, n


class Nd:
    """a node with c children: tiny (c <= 8) or with a branch table"""

    def __init__(self, E, st, c):
        self.E = E
        L, K, size = node_lay(E)
        self.L, self.K = L, K
        self.p = E.new_cells(st, size, 'node')
        u = L['u'][0]
        self.count_at = Ptr(self.p.oid, L['childCount'][0])
        self.key = Ptr(self.p.oid, L['key'][0])
        if c <= TINY:
            self.vals = [z3.BitVec('value%d' % i, 8) for i in range(c)]
            self.kids = [z3.BitVec('child%d' % i, 64) for i in range(c)]
            E.store_raw(st, self.count_at, c, 4)
            for i in range(c):
                E.store_raw(st, Ptr(self.p.oid, u + i), self.vals[i], 1)
                E.store_raw(st, Ptr(self.p.oid, u + 8 + 8 * i), self.kids[i], 8)
                st.assume(self.kids[i] != 0)
            if c > 1:
                st.assume(z3.Distinct(*self.vals))
            self.old = lambda b: self.fold(b)
            self.n = w32(c)
        else:
            self.B = FArr.base(64, 'branch')
            bp = E.new_arr(st, 8, {0: 8}, BRANCH, 'branch', {0: self.B})
            self.n = z3.BitVec('childCount', 32)
            st.assume(z3.And(self.n > TINY, self.n <= BRANCH))
            E.store_raw(st, self.count_at, self.n, 4)
            E.store_raw(st, Ptr(self.p.oid, u), bp, 8)
            self.old = lambda b: bv(self.B.read(z3.ZeroExt(56, b)), 64)

    def fold(self, b):
        r = w64(0)
        for v, k in zip(self.vals, self.kids):
            r = z3.If(b == v, k, r)
        return r


def child_fn(E):
    return E.find_fn(r'InputMap::getChild\(InputMap::Node const&, unsigned char\) const')


def unit_child(c):
    def unit(ctx):
        E = ctx.mk(SRCS)
        st = State()
        N = Nd(E, st, c)
        ch = z3.BitVec('ch', 8)
        E.inputs['ch'] = ch
        this = E.new_cells(st, class_size(E, 'InputMap'), 'this')
        for s, o in E.exec_fn(st, child_fn(E), [this, N.p, ch]):
            E.oblige(s, hv(o.v) == N.old(ch), 'postcondition', 'the child registered for the byte, or none')
    return unit


def pools(E, st):
    """SimplePool<T>::alloc by contract: a fresh, constructed object"""
    L, K, size = node_lay(E)
    new = z3.BitVec('newNode', 64)
    st.assume(new != 0)

    def alloc_node(E, s, a, ci):
        g(s, nodes=s.ghost.get('nodes', 0) + 1)
        return Ptr(0, new)

    def alloc_branch(E, s, a, ci):
        return E.new_arr(s, 8, {0: 8}, BRANCH, 'newBranch', {0: FArr.const(64, 0)})
    contract(E, r'SimplePool<InputMap::Node, \w+>::alloc\(\)', alloc_node, 'SimplePool<Node>::alloc: a fresh node without key and children')
    contract(E, r'SimplePool<InputMap::Branch, \w+>::alloc\(\)', alloc_branch, 'SimplePool<Branch>::alloc: a fresh table of 256 empty entries')
    return new


def unit_create(c):
    def unit(ctx):
        E = ctx.mk(SRCS)
        E.merge = 'leaf'
        st = State()
        new = pools(E, st)
        N = Nd(E, st, c)
        ch, b = z3.BitVec('ch', 8), z3.BitVec('otherByte', 8)
        E.inputs.update(ch=ch, otherByte=b)
        old = N.old
        # the number of children is the number of bytes that have one: a node
        # whose byte has none cannot have all 256
        st.assume(z3.Implies(old(ch) == 0, N.n < BRANCH))
        keyb = [E.load_raw(st, Ptr(N.key.oid, N.key.off + o), n, None) for o, n in ((0, 2), (4, 4), (8, 2))]
        this = E.new_cells(st, class_size(E, 'InputMap'), 'this')
        f = E.find_fn(r'InputMap::getOrCreateChild\(')
        for s, o in E.exec_fn(st, f, [this, N.p, ch]):
            r = hv(o.v)
            E.oblige(s, r == z3.If(old(ch) == 0, new, old(ch)), 'postcondition', 'the existing child or a fresh one')
            for s1, had in E.fork(s, old(ch) != 0):
                n2 = bv(E.load_raw(s1, N.count_at, 4, None), 32)
                todo = [(n2 == (N.n if had else N.n + 1), 'invariant', 'the count of children stays exact'),
                        (z3.And(n2 >= 0, n2 <= BRANCH), 'invariant', 'at most 256 children'),
                        (s1.ghost.get('nodes', 0) == (0 if had else 1), 'postcondition', 'a node is allocated only for a new child')]
                kk = [E.load_raw(s1, Ptr(N.key.oid, N.key.off + o), n, None) for o, n in ((0, 2), (4, 4), (8, 2))]
                todo.append((z3.And(*[bv(x, 8 * n) == bv(y, 8 * n) for x, y, n in zip(keyb, kk, (2, 4, 2))]), 'frame', 'the key of the node is kept'))
                E.oblige_all(s1, todo)
                for s2, o2 in E.exec_fn(s1, child_fn(E), [this, N.p, b]):
                    E.oblige(s2, hv(o2.v) == z3.If(b == ch, r, old(b)), 'postcondition', 'every other byte keeps its child')
                if c < TINY or (c == TINY and had):
                    u = N.L['u'][0]
                    m = c if had else c + 1
                    vs = [bv(E.load_raw(s1, Ptr(N.p.oid, u + i), 1, None), 8) for i in range(m)]
                    ks = [hv(E.load_raw(s1, Ptr(N.p.oid, u + 8 + 8 * i), 8, None)) for i in range(m)]
                    todo = [(z3.And(*[k != 0 for k in ks]) if ks else z3.BoolVal(True), 'invariant', 'listed children exist')]
                    if m > 1:
                        todo.append((z3.Distinct(*vs), 'invariant', 'each byte is listed once'))
                    E.oblige_all(s1, todo)
    return unit


def set_setup(E):
    st = State()
    g(st, calls=())
    L, K, size = node_lay(E)
    I = Input(E, st, 0, 'encoding')
    K3 = [z3.BitVec('key.vk', 16), z3.BitVec('key.ch', 32), z3.BitVec('key.state', 16)]
    offs = ((0, 2), (4, 4), (8, 2))
    key = E.new_cells(st, 12, 'key')
    for (o, n), v in zip(offs, K3):
        E.store_raw(st, Ptr(key.oid, o), v, n)
    node = E.new_cells(st, size, 'node')
    child = E.new_cells(st, size, 'child')
    whole = [E.load_raw(st, Ptr(node.oid, o), 4, None) for o in range(12, size, 4)]
    this = E.new_cells(st, class_size(E, 'InputMap'), 'this')

    def get(E, s, a, ci):
        g(s, calls=s.ghost['calls'] + (('get', a[1], a[2]),))
        return child

    def rec_(E, s, a, ci):
        E.oblige(s, bv(a[3], 32) >= 0, 'precondition', 'the remaining length is not negative')
        kk = [E.load_raw(s, Ptr(a[4].oid, add64(a[4].off, o)), n, None) for o, n in offs]
        g(s, calls=s.ghost['calls'] + (('set', a[1], a[2], a[3], tuple(kk)),))
        return None
    contract(E, r'InputMap::getOrCreateChild\(', get, 'InputMap::getOrCreateChild (verified by its own units)')
    contract(E, r'InputMap::setHelper\(', rec_, 'InputMap::setHelper (recursive call by contract; the remaining length decreases)')
    same_key = lambda kk: z3.And(*[bv(x, 8 * n) == v for x, v, (o, n) in zip(kk, K3, offs)])
    return st, I, offs, K3, key, node, child, whole, this, same_key


def unit_set(ctx):
    """set and setHelper: the key is stored at the node the sequence leads to,
    creating what is missing; setHelper is used by its own contract"""
    E = ctx.mk(SRCS)
    st, I, offs, K3, key, node, child, whole, this, same_key = set_setup(E)
    L, K, size = node_lay(E)
    f = E.find_fn(r'InputMap::setHelper\(')
    for s, o in E.exec_fn(st, f, [this, node, I.ptr, I.n, key]):
        for s1, end in E.fork(s, I.n == 0):
            calls = s1.ghost['calls']
            todo = [(z3.And(*[bv(E.load_raw(s1, Ptr(node.oid, o), 4, None), 32) == bv(w, 32) for o, w in zip(range(12, size, 4), whole)]), 'frame', 'the children of the node are kept')]
            if end:
                kk = [E.load_raw(s1, Ptr(node.oid, L['key'][0] + o), n, None) for o, n in offs]
                todo += [(len(calls) == 0, 'postcondition', 'the end of the sequence is this node'), (same_key(kk), 'postcondition', 'the key is stored here')]
            else:
                ok = len(calls) == 2 and calls[0][0] == 'get' and calls[1][0] == 'set' and calls[0][1].oid == node.oid and calls[1][1].oid == child.oid and calls[1][2].oid == I.ptr.oid
                todo.append((ok, 'postcondition', 'one step: to the child, then the rest'))
                if ok:
                    todo += [(bv(calls[0][1].off, 64) == 0, 'postcondition', 'the child of this node'),
                             (bv(calls[0][2], 8) == I.b(0), 'postcondition', 'the child for the first byte'),
                             (bv(calls[1][1].off, 64) == 0, 'postcondition', 'the rest is registered below that child'),
                             (bv(calls[1][2].off, 64) == 1, 'postcondition', 'the rest starts at the second byte'),
                             (bv(calls[1][3], 32) == I.n - 1, 'postcondition', 'the rest is one byte shorter'),
                             (same_key(calls[1][4]), 'postcondition', 'the same key')]
            E.oblige_all(s1, todo)


def unit_setroot(ctx):
    E = ctx.mk(SRCS)
    st, I, offs, K3, key, node, child, whole, this, same_key = set_setup(E)
    st.assume(I.n > 0)
    V = View(E, 'InputMap', this)
    for s, o in E.exec_fn(st, E.find_fn(r'InputMap::set\('), [this, I.ptr, I.n, key]):
        calls = s.ghost['calls']
        ok = len(calls) == 1 and calls[0][0] == 'set' and calls[0][1].oid == this.oid and calls[0][2].oid == I.ptr.oid
        todo = [(ok, 'postcondition', 'registration starts at the root, once')]
        if ok:
            todo += [(bv(calls[0][1].off, 64) == V.lay['m_root'][0], 'postcondition', 'the root of the table'),
                     (bv(calls[0][2].off, 64) == 0, 'postcondition', 'the whole sequence'), (bv(calls[0][3], 32) == I.n, 'postcondition', 'of its length'),
                     (same_key(calls[0][4]), 'postcondition', 'the same key')]
        E.oblige_all(s, todo)


def unit_lookup(ctx):
    """nodes are records of a heap; N(i) is the node after i bytes"""
    E = ctx.mk(SRCS)
    L, K, size = node_lay(E)
    V = layout(E, 'InputMap')
    st = State()
    I = Input(E, st, 0)
    count = z3.BitVec('nodes', 64)
    st.assume(z3.And(z3.ULE(count, 1 << 40), count != 0))
    kv, kc, ks, cc = (FArr.base(w, n) for w, n in ((16, 'vk'), (32, 'ch'), (16, 'state'), (32, 'childCount')))
    ko = L['key'][0]
    heap = E.new_arr(st, size, {ko: 2, ko + 2: 2, ko + 4: 4, ko + 8: 2, ko + 10: 2, L['childCount'][0]: 4}, count, 'nodes',
                     {ko: kv, ko + 4: kc, ko + 8: ks, L['childCount'][0]: cc, ko + 2: FArr.base(16, 'pad1'), ko + 10: FArr.base(16, 'pad2')})
    BV64 = z3.BitVecSort(64)
    child = z3.Function('childOf', BV64, z3.BitVecSort(8), BV64)       # 0: none (the root is nobody's child)
    N = z3.Function('nodeAfter', BV64, BV64)
    st.assume(N(w64(0)) == 0)
    has = lambda k: z3.Or(bv(kv.read(k), 16) != 0, bv(kc.read(k), 32) != 0)
    j = z3.BitVec('j', 32)                                             # any position
    ext = lambda i: z3.SignExt(32, bv(i, 32))
    st.assume(z3.Or(bv(cc.read(w64(0)), 32) >= 0))

    def getchild(E, s, a, ci):
        ch = bv(a[2], 8)
        p = a[1]
        if not isinstance(p, Ptr) or p.oid != heap.oid:
            raise Unsupported('a node from elsewhere')
        r = divmod_lin(p.off, size)
        if r is None or r[1] != 0:
            E.oblige(s, False, 'precondition', 'the lookup stays on nodes')
            raise Abort()
        k = bv(r[0], 64)
        E.oblige(s, z3.ULT(k, count), 'precondition', 'the lookup stays on nodes')
        c = child(k, ch)
        outs = []
        for s1, none in E.fork(s, c == 0):
            if none:
                g(s1, stopped=True)
                outs.append((s1, Ret(Ptr(0, 0))))
            else:
                s1.assume(z3.And(z3.ULT(c, count), bv(cc.read(c), 32) >= 0))
                outs.append((s1, Ret(Ptr(heap.oid, mul64(c, size)))))
        return Outs(outs)
    contract(E, r'InputMap::getChild\(', getchild, 'InputMap::getChild (verified by its own units)')

    def inv(c):
        i = bv(c['i'], 32)
        ln = bv(c['longestMatchLen'], 32)
        p = c['node']
        lm = c.slot('longestMatch')
        K3 = [bv(E.load_raw(c.st, Ptr(lm.oid, o), n, None), 8 * n) for o, n in ((0, 2), (4, 4), (8, 2))]
        if not isinstance(p, Ptr) or p.oid != heap.oid:
            raise Unsupported('the node variable is not a node')
        nl = N(ext(ln))
        # definition of N, where the step from i is made
        return [('the position is within the input', z3.And(i >= 0, i <= I.n)),
                ('the node is the one the bytes so far lead to', bv(p.off, 64) == bv(mul64(N(ext(i)), size), 64)),
                ('it is a node', z3.And(z3.ULT(N(ext(i)), count), bv(cc.read(N(ext(i))), 32) >= 0)),
                ('the longest match so far is within the bytes so far', z3.And(ln >= 0, ln <= i)),
                ('it is a registered sequence', z3.Implies(ln > 0, z3.And(has(nl), K3[0] == bv(kv.read(nl), 16), K3[1] == bv(kc.read(nl), 32), K3[2] == bv(ks.read(nl), 16)))),
                ('without match there is no key', z3.Implies(ln == 0, z3.And(*[x == 0 for x in K3]))),
                ('no longer one is registered', z3.Implies(z3.And(ln < j, j <= i), z3.Not(has(N(ext(j))))))]

    def head(c):
        i = bv(c['i'], 32)
        c.st.assume(N(ext(i) + 1) == child(N(ext(i)), bv(I.a.read(ext(i)), 8)))
        g(c.st, pos=i)
        # the node variable, by the invariant
        sl = c.slot('node')
        E.store_raw(c.st, sl, Ptr(heap.oid, mul64(N(ext(i)), size)), 8)
    E.loops.append(LoopSpec('lookup', inv, fn=r'InputMap::lookupKey\(', vars={'i': ('i', 32), 'longestMatchLen': ('i', 32)},
                            decreases=lambda c: I.n - bv(c['i'], 32), on_head=head))
    key = E.new_cells(st, 12, 'keyOut')
    inc = E.new_cells(st, 1, 'incompleteOut')
    f = E.find_fn(r'InputMap::lookupKey\(')
    this = Ptr(heap.oid, -V['m_root'][0])
    for s, o in E.exec_fn(st, f, [this, I.ptr, I.n, key, inc]):
        r = bv(o.v, 32)
        K3 = [bv(E.load_raw(s, Ptr(key.oid, o), n, None), 8 * n) for o, n in ((0, 2), (4, 4), (8, 2))]
        ic = b8(E.load_raw(s, inc, 1, None))
        nr = N(ext(r))
        todo = [(z3.And(r >= 0, r <= I.n), 'postcondition', 'a match lies within the input'),
                (z3.Implies(r > 0, z3.And(has(nr), K3[0] == bv(kv.read(nr), 16), K3[1] == bv(kc.read(nr), 32), K3[2] == bv(ks.read(nr), 16))), 'postcondition', 'the key of the sequence found'),
                (z3.Implies(r == 0, z3.And(*[x == 0 for x in K3])), 'postcondition', 'no key without match')]
        E.oblige_all(s, todo)
        stop = s.ghost.get('pos', w32(0))
        if s.ghost.get('stopped'):
            todo = [(z3.And(stop >= 0, stop < I.n, child(N(ext(stop)), bv(I.a.read(ext(stop)), 8)) == 0), 'postcondition', 'the search ends only where no sequence continues'),
                    (z3.Not(ic), 'postcondition', 'no sequence continues this input')]
        else:
            todo = [(stop == I.n, 'postcondition', 'the search takes the whole input'),
                    (ic == (bv(cc.read(N(ext(I.n))), 32) > 0), 'postcondition', 'more input could complete a longer sequence exactly when one continues here')]
        todo.append((z3.Implies(z3.And(r < j, j <= stop), z3.Not(has(N(ext(j))))), 'postcondition', 'the longest registered beginning of the input'))
        E.oblige_all(s, todo)


def unit_pool(kind):
    """SimplePool<T>::alloc: a place of its own in a chunk, constructed"""
    def unit(ctx):
        E = ctx.mk(SRCS)
        E.merge = 'leaf'
        quiet_trace(E)
        st = State()
        L, K, nsize = node_lay(E)
        size = nsize if kind == 'Node' else class_size(E, 'InputMap::Branch')
        f = E.find_fn(r'SimplePool<InputMap::%s, \w+>::alloc\(\)' % kind)
        dn = E.dem[f.name]
        per = int(re.search(r', (\d+)', dn).group(1))
        elem = re.search(r'(SimplePool<.*>)::alloc', dn).group(1) + '::Chunk'
        CL = layout(E, elem.replace('ull', 'ULL'))
        co, do = CL['count'][0], CL['data'][0]
        std.ELEM[elem] = (16, {co: 8, do: 8})
        pool = E.new_cells(st, 24, 'pool')
        n0 = z3.BitVec('chunks', 64)
        E.inputs['chunks'] = n0
        st.assume(z3.ULE(n0, 1 << 32))
        counts, datas = FArr.base(64, 'counts'), FArr.base(64, 'datas')
        last = sub64(n0, 1)
        # every chunk holds room for `per` objects, `count` of them in use
        ko = L['key'][0]
        fl = {x: 1 for x in range(0, L['u'][0])} if kind == 'Node' else {0: 8}
        mk = lambda s, nm: E.new_arr(s, size if kind == 'Node' else 8, dict(fl), per if kind == 'Node' else per * (size // 8), nm)
        D = mk(st, 'chunk')
        base = E.sym_base(D, 'lastChunk')
        datas = datas.set(last, base)
        c0 = bv(counts.read(last), 64)
        E.inputs['usedInLastChunk'] = c0
        st.assume(z3.ULE(c0, per))
        k = z3.BitVec('anyChunk', 64)
        st.assume(z3.ULE(bv(counts.read(k), 64), per))
        seq_put(E, st, pool, std.new_seq(E, st, elem, n0, {co: counts, do: datas}, False, 'chunks'))

        def malloc(E, s, a, ci):
            E.oblige(s, bv(a[0], 64) == per * size, 'precondition', 'room for a whole chunk is allocated')
            p = mk(s, 'newChunk')
            E.sym_base(p, 'newChunkAddress')
            s.assume(E.base_of[p.oid] != 0)
            g(s, made=s.ghost.get('made', ()) + (p.oid,))
            return p
        handler(E, r'^malloc$', malloc, 'malloc: fresh memory (failure is an ASSERT of the code, not explored)')
        for s, o in E.exec_fn(st, f, [pool]):
            made = s.ghost.get('made', ())
            full = z3.Or(n0 == 0, c0 == per)
            for s1, grow in E.fork(s, full):
                q = seq_get(E, s1, pool)
                fa = farrs_of(E, s1, q)
                C = lambda i: bv(fa[co].read(i), 64)
                DD = lambda i: bv(fa[do].read(i), 64)
                todo = [(len(made) == (1 if grow else 0), 'postcondition', 'a chunk is allocated exactly when none has room'),
                        (bv(q.len, 64) == add64(n0, 1 if grow else 0), 'postcondition', 'the number of chunks')]
                at = n0 if grow else last
                todo += [(C(at) == (w64(1) if grow else c0 + 1), 'postcondition', 'the place is marked as used'),
                         (z3.ULE(C(at), per), 'invariant', 'no chunk holds more than its room'),
                         (z3.Implies(z3.And(k != at, z3.ULT(k, n0)), z3.And(C(k) == bv(counts.read(k), 64), DD(k) == bv(datas.read(k), 64))), 'postcondition', 'other chunks are kept')]
                if len(made) == (1 if grow else 0):
                    oid = made[0] if grow else D.oid
                    ok = isinstance(o.v, Ptr) and o.v.oid == oid
                    todo += [(ok, 'postcondition', 'the object lies in that chunk'), (DD(at) == E.base_of[oid], 'postcondition', 'the chunk keeps its memory')]
                    if ok:
                        idx = w64(0) if grow else c0
                        todo.append((bv(o.v.off, 64) == bv(mul64(idx, size), 64), 'postcondition', 'at the first unused place'))
                        if kind == 'Node':
                            ld = lambda off, n: bv(E.load_raw(s1, Ptr(oid, add64(o.v.off, off)), n, None), 8 * n)
                            todo.append((z3.And(*[ld(x, n) == 0 for x, n in ((ko, 2), (ko + 4, 4), (ko + 8, 2), (L['childCount'][0], 4))]), 'postcondition', 'a fresh node has no key and no children'))
                        else:
                            x = z3.BitVec('entry', 64)
                            s1.assume(z3.ULT(x, BRANCH))
                            todo.append((bv(E.load_raw(s1, Ptr(oid, add64(o.v.off, mul64(x, 8))), 8, None), 64) == 0, 'postcondition', 'a fresh branch table is empty'))
                E.oblige_all(s1, todo)
    return unit


UNITS = [('getChild-%s' % (c if c <= TINY else 'branch'), unit_child(c)) for c in range(TINY + 2)] + \
        [('getOrCreateChild-%s' % (c if c <= TINY else 'branch'), unit_create(c)) for c in range(TINY + 2)] + [('set', unit_set)] + [('set-root', unit_setroot), ('lookup', unit_lookup)] + [('pool-' + k, unit_pool(k)) for k in ('Node', 'Branch')]
