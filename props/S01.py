from common import *

CL = 'src/agent/ConsoleLine.cc'
SRCS = [CL]
k = z3.BitVec('k', 64)          # any column


class Cells:
    """an array of CHAR_INFO with known character and attribute functions"""

    def __init__(self, E, st, n, name):
        self.ch, self.at = FArr.base(16, name + '.ch'), FArr.base(16, name + '.at')
        self.ptr = E.new_arr(st, 4, {0: 2, 2: 2}, n, name, {0: self.ch, 2: self.at})

    def c(self, i):
        return bv(self.ch.read(i), 16)

    def a(self, i):
        return bv(self.at.read(i), 16)


def setup(ctx):
    E = ctx.mk([CL])
    st = State()
    E.targets.append('ConsoleLine')
    L, M, N = (z3.BitVec(n, 32) for n in 'LMN')
    E.inputs.update(L=L, M=M, N=N)
    B = 1 << 15
    st.assume(z3.And(L >= 0, L <= M, M <= B, N >= 1, N <= B, k >= 0, k < B))
    V = new_object(E, st, 'ConsoleLine', 'line')
    D = Cells.__new__(Cells)
    D.ch, D.at = FArr.base(16, 'prev.ch'), FArr.base(16, 'prev.at')
    M64 = z3.ZeroExt(32, M)
    V.set(st, 'm_prevLength', L)
    V.set(st, 'm_prevData', new_seq(E, st, '_CHAR_INFO', M64, {0: D.ch, 2: D.at}, name='prev'))
    line = Cells(E, st, z3.ZeroExt(32, N), 'line')
    g(st, wit=w64(0))
    handler(E, r'^trace\(', lambda E, s, a, ci: None, False)
    return E, st, V, D, line, L, M, N


def cells_at(E, st, p):
    """(char FArr, attr FArr, first index) for a CHAR_INFO pointer"""
    o = E.getobj(st, p, 'read')
    if o.kind != 'arr' or o.stride != 4 or set(o.fields) != {0, 2}:
        raise Unsupported('not a CHAR_INFO array')
    q, r = divmod_lin(p.off, 4) or (None, 1)
    if r:
        raise Unsupported('not a CHAR_INFO address')
    return o, o.fields[0][1], o.fields[2][1], q


def h_memcmp(E, st, args, ci):
    n = bv(args[2], 64)
    o1, c1, a1, i1 = cells_at(E, st, args[0])
    o2, c2, a2, i2 = cells_at(E, st, args[1])
    E.inb_sym(st, o1, args[0].off, n, 'read')
    E.inb_sym(st, o2, args[1].off, n, 'read')
    same = lambda j: z3.And(bv(c1.read(add64(i1, j)), 16) == bv(c2.read(add64(i2, j)), 16), bv(a1.read(add64(i1, j)), 16) == bv(a2.read(add64(i2, j)), 16))
    a, b = st.copy(), st
    r = k - bv(i1, 64)
    a.assume(z3.Implies(z3.And(z3.ULT(r, 1 << 20), z3.ULE(r * 4 + 4, n)), same(r)))
    w = fresh('diffcol', 64)
    b.assume(z3.And(z3.ULT(w, 1 << 20), z3.ULT(w * 4, n), z3.Not(same(w))))
    g(b, wit=w + bv(i1, 64))
    v = fresh('memcmp', 32)
    b.assume(v != 0)
    return Outs([(a, Ret(0)), (b, Ret(v))])


def blank_spec(E, st, p, n):
    o, c, a, i0 = cells_at(E, st, p)
    return o, i0, lambda j, at: z3.And(bv(c.read(add64(i0, j)), 16) == 0x20, bv(a.read(add64(i0, j)), 16) == at)


def c_blank(E, st, args, ci):
    """isLineBlank(line, n, attr)"""
    n = z3.SignExt(32, bv(args[1], 32))
    at = bv(args[2], 16)
    if E.must(st, n <= 0):
        return 1
    o, i0, cell = blank_spec(E, st, args[0], n)
    E.oblige(st, n >= 0, 'precondition', 'isLineBlank: length not negative')
    E.inb_sym(st, o, args[0].off, n * 4, 'read')
    a, b = st.copy(), st
    r = k - bv(i0, 64)
    a.assume(z3.Implies(z3.And(r >= 0, r < n), cell(r, at)))
    w = fresh('nonblank', 64)
    b.assume(z3.And(w >= 0, w < n, z3.Not(cell(w, at))))
    g(b, wit=w + bv(i0, 64))
    return Outs([(a, Ret(1)), (b, Ret(0))])


def remembered(E, s, V, D, line, M, N):
    """the new row is what is remembered; later storage is as before"""
    k32 = z3.Extract(31, 0, k)
    q = V.seq(s, 'm_prevData')
    f = farrs_of(E, s, q)
    nl = bv(q.len, 64)
    E.oblige(s, bv(V.get(s, 'm_prevLength'), 32) == N, 'postcondition', 'the remembered length is the new one')
    E.oblige(s, nl == z3.ZeroExt(32, z3.If(M >= N, M, N)), 'postcondition', 'the storage holds the longest row so far')
    E.oblige(s, z3.Implies(k32 < N, z3.And(bv(f[0].read(k), 16) == line.c(k), bv(f[2].read(k), 16) == line.a(k))), 'postcondition', 'the new row is what is remembered')
    E.oblige(s, z3.Implies(z3.And(k32 >= N, k32 < M), z3.And(bv(f[0].read(k), 16) == D.c(k), bv(f[2].read(k), 16) == D.a(k))), 'frame', 'storage beyond the new row is kept')


def unit_detect(ctx):
    E, st, V, D, line, L, M, N = setup(ctx)
    handler(E, r'^memcmp$', h_memcmp, 'C memcmp')
    contract(E, r'^isLineBlank\(', c_blank, 'isLineBlank: every cell of the range is a blank of that attribute')

    def unchanged_at(j):
        """column j contributes nothing that would show"""
        j32 = z3.Extract(31, 0, j)
        last_new, last_old = line.a(z3.SignExt(32, N - 1)), D.a(z3.SignExt(32, L - 1))
        return z3.And(
            z3.Implies(z3.And(j32 < L, j32 < N), z3.And(D.c(j) == line.c(j), D.a(j) == line.a(j))),
            z3.Implies(z3.And(j32 >= N, j32 < L), z3.And(D.c(j) == 0x20, D.a(j) == last_new)),
            z3.Implies(z3.And(j32 >= L, j32 < N), z3.And(line.c(j) == 0x20, line.a(j) == last_old,
                                                         z3.Implies(j32 < M, z3.And(D.c(j) == 0x20, D.a(j) == last_old)))))
    for s, o in E.exec_fn(st, E.find_fn(r'^ConsoleLine::detectChangeAndSetLine\('), [V.ptr, line.ptr, N]):
        if not isinstance(o, Ret):
            continue
        r = boolv(o.v)
        w = s.ghost['wit']
        E.oblige(s, z3.Implies(z3.Not(r), L > 0), 'postcondition', 'the first row after a reset is a change')
        E.oblige(s, z3.Implies(z3.Not(r), unchanged_at(k)), 'postcondition', 'no change is reported only when no column would look different')
        E.oblige(s, z3.Implies(r, z3.Or(L == 0, z3.And(w >= 0, w < (1 << 21), z3.Not(unchanged_at(w))))), 'postcondition', 'a change is reported only when some column would look different')
        # when nothing changed at equal length the remembered row is the same cells anyway
        remembered(E, s, V, D, line, M, N)


def unit_setline(ctx):
    E, st, V, D, line, L, M, N = setup(ctx)
    for s, o in E.exec_fn(st, E.find_fn(r'^ConsoleLine::setLine\('), [V.ptr, line.ptr, N]):
        remembered(E, s, V, D, line, M, N)


def unit_blank(ctx):
    E, st, V, D, line, L, M, N = setup(ctx)
    at = z3.BitVec('attr', 16)
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^ConsoleLine::blank\('), [V.ptr, at]):
        q = V.seq(s, 'm_prevData')
        f = farrs_of(E, s, q)
        E.oblige(s, bv(V.get(s, 'm_prevLength'), 32) == 1, 'postcondition', 'one cell is remembered')
        E.oblige(s, bv(q.len, 64) == 1, 'postcondition', 'nothing else is stored')
        E.oblige(s, z3.And(bv(f[0].read(0), 16) == 0x20, bv(f[2].read(0), 16) == at), 'postcondition', 'it is a blank of the given attribute')
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^ConsoleLine::reset\('), [V.ptr]):
        E.oblige(s, bv(V.get(s, 'm_prevLength'), 32) == 0, 'postcondition', 'reset forgets the row')
        E.oblige(s, bv(V.seq(s, 'm_prevData').len, 64) == 0, 'postcondition', 'reset forgets what was stored')
    W = new_object(E, st, 'ConsoleLine', 'fresh')
    for s, o in E.exec_fn(st.copy(), E.find_fn(r'^ConsoleLine::ConsoleLine\('), [W.ptr]):
        E.oblige(s, bv(W.get(s, 'm_prevLength'), 32) == 0, 'postcondition', 'a new line remembers nothing')
        E.oblige(s, bv(W.seq(s, 'm_prevData').len, 64) == 0, 'postcondition', 'a new line stores nothing')


def unit_isblank(ctx):
    E, st, V, D, line, L, M, N = setup(ctx)
    at = z3.BitVec('attr', 16)
    n = z3.BitVec('n', 32)
    st.assume(z3.And(n >= 0, n <= N))
    cell = lambda j: z3.And(line.c(j) == 0x20, line.a(j) == at)
    cs = E.contracts
    E.loops = [LoopSpec('isLineBlank loop', lambda c: [('within the range', z3.And(bv(c['col'], 32) >= 0, bv(c['col'], 32) <= n)),
                                                       ('all earlier cells are blank', z3.Implies(k < z3.SignExt(32, bv(c['col'], 32)), cell(k)))],
                        fn=r'^isLineBlank', vars={'col': ('i', 32)}, decreases=lambda c: n - bv(c['col'], 32),
                        on_head=lambda c: g(c.st, wit=z3.SignExt(32, bv(c['col'], 32))))]
    for s, o in E.exec_fn(st, E.find_fn(r'^isLineBlank\('), [line.ptr, n, at]):
        r = boolv(o.v)
        w = s.ghost['wit']
        E.oblige(s, z3.Implies(z3.And(r, k < z3.SignExt(32, n)), cell(k)), 'postcondition', 'true only for blank cells')
        E.oblige(s, z3.Implies(z3.Not(r), z3.And(w >= 0, w < z3.SignExt(32, n), z3.Not(cell(w)))), 'postcondition', 'false only with a cell that is not blank')


UNITS = [('detectChangeAndSetLine', unit_detect), ('setLine', unit_setline), ('blank/reset', unit_blank), ('isLineBlank', unit_isblank)]
HARNESS = ['h_s01']
RULE = 'harness: update histories on one line against an independent column-by-column comparison; distinct = histories by hash'
