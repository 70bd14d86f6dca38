"""Values, memory objects and the solver interface of the verifier."""
import subprocess, tempfile
import z3, time, hashlib
import lia

z3.set_param('memory_max_size', 3500)


class Unsupported(Exception):
    pass


def mask(w):
    return (1 << w) - 1


def to_signed(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


class Ptr:
    __slots__ = ('oid', 'off')

    def __init__(self, oid, off=0):
        self.oid = oid
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.oid, self.off)


NULL = Ptr(0, 0)


class PtrInt:
    """ptrtoint of a pointer into an object"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class FnPtr:
    __slots__ = ('fn', 'mod')

    def __init__(self, fn, mod):
        self.fn, self.mod = fn, mod

    def __repr__(self):
        return 'FnPtr(%s)' % self.fn


class Seq:
    """abstract std::vector<T> / std::basic_string value"""
    __slots__ = ('esz', 'len', 'oid', 'isstr')

    def __init__(self, esz, ln, oid, isstr):
        self.esz, self.len, self.oid, self.isstr = esz, ln, oid, isstr

    def __repr__(self):
        return 'Seq(%s,%s,o%s)' % (self.esz, self.len, self.oid)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v & mask(w), w)
    return v


def norm(v, w):
    """python int when the term is a numeral"""
    if isinstance(v, z3.BitVecNumRef):
        return v.as_long()
    return v


def boolv(v):
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, (int, bool)):
        return z3.BoolVal(bool(v))
    if isinstance(v, z3.BitVecRef):
        return v != 0
    raise Unsupported('boolv %r' % (v,))


_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return '%s!%d' % (p, _cnt[0])


def fresh(p, w):
    if w == 1:
        return z3.Bool(fresh_name(p))
    return z3.BitVec(fresh_name(p), w)


# ---- linear forms ------------------------------------------------------------

def linear(e):
    """64-bit term -> (const, {id: (term, coef)}); the result is shared, not to be changed"""
    if isinstance(e, int):
        return e, {}
    hit = _lin.get(e.get_id())
    if hit is not None:
        return hit[1]
    if len(_lin) > 200000:
        _lin.clear()
    r = _linear(e)
    _lin[e.get_id()] = (e, r)
    return r


_lin = {}
_eqs = {}


def _linear(e):
    acc = {}
    c = [0]

    def go(x, k, d):
        if isinstance(x, z3.BitVecNumRef):
            c[0] += k * x.as_long()
            return
        dk = x.decl().kind()
        if d < 40:
            if dk == z3.Z3_OP_BADD:
                for ch in x.children():
                    go(ch, k, d + 1)
                return
            if dk == z3.Z3_OP_BSUB and x.num_args() == 2:
                go(x.arg(0), k, d + 1); go(x.arg(1), -k, d + 1)
                return
            if dk == z3.Z3_OP_BNEG:
                go(x.arg(0), -k, d + 1)
                return
            if dk == z3.Z3_OP_BMUL and x.num_args() == 2:
                a, b = x.arg(0), x.arg(1)
                if isinstance(a, z3.BitVecNumRef):
                    go(b, k * to_signed(a.as_long(), 64), d + 1); return
                if isinstance(b, z3.BitVecNumRef):
                    go(a, k * to_signed(b.as_long(), 64), d + 1); return
            if dk == z3.Z3_OP_BSHL and isinstance(x.arg(1), z3.BitVecNumRef):
                go(x.arg(0), k << x.arg(1).as_long(), d + 1); return
        i = x.get_id()
        if i in acc:
            acc[i] = (x, acc[i][1] + k)
        else:
            acc[i] = (x, k)
    go(e, 1, 0)
    return to_signed(c[0], 64), {i: (t, k) for i, (t, k) in acc.items() if k & mask(64)}


def lin_expr(c, terms):
    if not terms:
        return c
    e = None
    for t, k in terms.values():
        x = t if k == 1 else t * z3.BitVecVal(k & mask(64), 64)
        e = x if e is None else e + x
    if c:
        e = e + z3.BitVecVal(c & mask(64), 64)
    return e


def add64(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return to_signed(a + b, 64)
    if isinstance(b, int):
        if b == 0:
            return a
        a, b = b, a
    if isinstance(a, int):
        if a == 0:
            return b
        c, t = linear(b)
        return lin_expr(to_signed(c + a, 64), t)
    ca, ta = linear(a)
    cb, tb = linear(b)
    r = dict(ta)
    for i, (t, k) in tb.items():
        if i in r:
            kk = r[i][1] + k
            if kk & mask(64):
                r[i] = (t, kk)
            else:
                del r[i]
        else:
            r[i] = (t, k)
    return lin_expr(to_signed(ca + cb, 64), r)


def neg64(a):
    if isinstance(a, int):
        return -a
    c, t = linear(a)
    return lin_expr(-c, {i: (x, -k) for i, (x, k) in t.items()})


def sub64(a, b):
    return add64(a, neg64(b))


def mul64(a, k):
    if isinstance(a, int):
        return to_signed(a * k, 64)
    if k == 1:
        return a
    c, t = linear(a)
    return lin_expr(c * k, {i: (x, kk * k) for i, (x, kk) in t.items()})


def divmod_lin(off, s):
    """off = s*q + r with constant 0<=r<s, syntactically; None if impossible"""
    if isinstance(off, int):
        return off // s, off % s
    c, t = linear(off)
    if any(k % s for _, k in t.values()):
        return None
    return lin_expr(c // s, {i: (x, k // s) for i, (x, k) in t.items()}), c % s


# ---- functional arrays -------------------------------------------------------

class FArr:
    """index (BV64) -> BVw, as a chain of updates over an uninterpreted base"""
    __slots__ = ('w', 'kind', 'a', 'prev')

    def __init__(self, w, kind, a, prev=None):
        self.w, self.kind, self.a, self.prev = w, kind, a, prev

    @staticmethod
    def base(w, name):
        return FArr(w, 'base', z3.Function(fresh_name(name), z3.BitVecSort(64), z3.BitVecSort(w)))

    @staticmethod
    def fun(w, f):
        """f: python function index-term -> value"""
        return FArr(w, 'fun', f)

    @staticmethod
    def const(w, v):
        return FArr(w, 'fun', lambda i: v)

    def set(self, i, v):
        return FArr(self.w, 'set', (i, v), self)

    def setif(self, c, i, v):
        return FArr(self.w, 'setif', (c, i, v), self)

    def copy(self, d, n, src, s):
        return FArr(self.w, 'copy', (d, n, src, s), self)

    def fill(self, d, n, v):
        return FArr(self.w, 'copy', (d, n, FArr.const(self.w, v), 0), self)

    def read(self, i):
        stack = []
        cur = self
        while True:
            if cur.kind == 'base':
                r = cur.a(bv(i, 64))
                break
            if cur.kind == 'fun':
                r = cur.a(i)
                break
            if cur.kind == 'ite':
                c, x, y = cur.a
                r = ite(c, x.read(i), y.read(i), cur.w)
                break
            if cur.kind == 'set':
                j, v = cur.a
                e = eq64(i, j)
                if e is True:
                    r = v
                    break
                if e is not False:
                    stack.append((e, v))
                cur = cur.prev
            elif cur.kind == 'setif':
                c, j, v = cur.a
                e = eq64(i, j)
                if e is not False:
                    stack.append((c if e is True else z3.And(c, e), v))
                cur = cur.prev
            else:
                d, n, src, s = cur.a
                rel = sub64(i, d)
                if isinstance(rel, int) and isinstance(n, int):
                    if 0 <= rel < n:
                        r = src.read(add64(rel, s))
                        break
                    cur = cur.prev
                    continue
                if isinstance(rel, int) and rel < 0 and not isinstance(n, int):
                    pass
                c = z3.ULT(bv(rel, 64), bv(n, 64))
                stack.append((c, src.read(add64(rel, s))))
                cur = cur.prev
        for c, v in reversed(stack):
            r = ite(c, v, r, self.w)
        return r


def as_bytes(a, stride):
    """byte view of an array of one stride-wide field"""
    w = 8 * stride
    sh = stride.bit_length() - 1

    def rd(i):
        if isinstance(i, int):
            v = a.read(i >> sh)
            k = i & (stride - 1)
            return (v >> (8 * k)) & 255 if isinstance(v, int) else z3.Extract(8 * k + 7, 8 * k, v)
        d = divmod_lin(i, stride)
        if d is not None and isinstance(d[1], int):
            v = bv(a.read(d[0]), w)
            return z3.Extract(8 * d[1] + 7, 8 * d[1], v)
        v = bv(a.read(z3.LShR(i, sh)), w)
        k = i & (stride - 1)
        r = z3.Extract(7, 0, v)
        for j in range(1, stride):
            r = z3.If(k == j, z3.Extract(8 * j + 7, 8 * j, v), r)
        return r
    return FArr.fun(8, rd)


def as_words(a, stride, start):
    """stride-wide elements read from a byte array, element 0 at byte `start`"""
    def rd(i):
        bs = [a.read(add64(add64(mul64(i, stride), k), start)) for k in range(stride)]
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * k) for k, b in enumerate(bs))
        return z3.Concat(*[bv(b, 8) for b in reversed(bs)])
    return FArr.fun(8 * stride, rd)


def eq64(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(64) == 0
    k = (a if isinstance(a, int) else ('t', a.get_id()), b if isinstance(b, int) else ('t', b.get_id()))
    hit = _eqs.get(k)
    if hit is not None:
        return hit[2]
    if len(_eqs) > 200000:
        _eqs.clear()
    d = sub64(a, b)
    if isinstance(d, int):
        r = d & mask(64) == 0
    else:
        r = bv(a, 64) == bv(b, 64)
    _eqs[k] = (a, b, r)
    return r


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a & mask(w) == b & mask(w):
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if w == 1:
        return z3.If(c, boolv(a), boolv(b))
    return z3.If(c, bv(a, w), bv(b, w))


# ---- memory objects ----------------------------------------------------------

class Obj:
    """kind 'cells': values at constant offsets; kind 'arr': strided elements.

    fills: [(a,b,byte)] default contents; lazy: callable(off,size,want_ptr)->value
    or None; count: number of elements of an 'arr' (int or term)."""
    __slots__ = ('kind', 'size', 'cells', 'fills', 'lazy', 'name', 'alive', 'stride', 'fields', 'count', 'ro',
                 'elem', 'tag')

    def __init__(self, kind, size, name):
        self.kind, self.size, self.name = kind, size, name
        self.cells = {}
        self.fills = ()
        self.lazy = None
        self.alive = True
        self.stride = None
        self.fields = None
        self.count = None
        self.ro = False
        self.elem = None
        self.tag = None

    def clone(self):
        o = Obj(self.kind, self.size, self.name)
        o.cells = dict(self.cells)
        o.fills, o.lazy, o.alive, o.stride = self.fills, self.lazy, self.alive, self.stride
        o.fields = dict(self.fields) if self.fields is not None else None
        o.count, o.ro, o.elem, o.tag = self.count, self.ro, self.elem, self.tag
        return o


_supp = {}


def support(c):
    """what a constraint talks about: constants, and applications of functions and
    arrays to literal arguments, each an atom of its own; ('f', name) when applied
    to a computed argument; None when unknown (quantifiers)"""
    k = c.get_id()
    r = _supp.get(k)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    stack = [c]
    bad = False
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if not z3.is_app(e):
            bad = True
            break
        n = e.num_args()
        d = e.decl()
        kd = d.kind()
        if kd == z3.Z3_OP_UNINTERPRETED:
            if n == 0:
                out.add(d.name())
            elif all(z3.is_bv_value(e.arg(j)) for j in range(n)):
                out.add((d.name(),) + tuple(e.arg(j).as_long() for j in range(n)))
            else:
                out.add(('f', d.name()))
                stack.extend(e.arg(j) for j in range(n))
            continue
        if kd == z3.Z3_OP_SELECT and n == 2 and z3.is_const(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = e.arg(0).decl().name()
            if z3.is_bv_value(e.arg(1)):
                out.add((nm, e.arg(1).as_long()))
            else:
                out.add(('f', nm))
                stack.append(e.arg(1))
            continue
        if n and z3.is_array(e) or (n and any(z3.is_array(e.arg(j)) for j in range(n))):
            for j in range(n):
                a = e.arg(j)
                if z3.is_array(a) and z3.is_const(a):
                    out.add(('f', a.decl().name()))
        stack.extend(e.arg(j) for j in range(n))
    r = (c, None if bad else frozenset(out))
    _supp[k] = r
    return r[1]


def relevant(pc, c):
    """the part of pc connected to c through common atoms (None: all of it)"""
    s = support(c)
    if s is None:
        return None
    have = set(s)
    fams = {x[1] for x in s if isinstance(x, tuple) and x[0] == 'f'}
    names = {x[0] for x in s if isinstance(x, tuple)}
    rest = []
    for q in pc:
        t = support(q)
        if t is None:
            return None
        rest.append((q, t))
    take = []
    changed = True
    while changed and rest:
        changed = False
        nxt = []
        for q, t in rest:
            hit = False
            for x in t:
                if x in have:
                    hit = True
                    break
                if isinstance(x, tuple) and (x[1] in names or x[1] in fams if x[0] == 'f' else x[0] in fams):
                    hit = True
                    break
            if hit or not t:
                take.append(q)
                for x in t:
                    have.add(x)
                    if isinstance(x, tuple):
                        if x[0] == 'f':
                            fams.add(x[1])
                        names.add(x[0] if x[0] != 'f' else x[1])
                changed = True
            else:
                nxt.append((q, t))
        rest = nxt
    return take


def cvc5_unsat(s, timeout):
    """does cvc5 refute what is in z3's solver s?  Bits and integers side by side."""
    try:
        q = ('(set-logic ALL)\n' + s.to_smt2()).encode()
    except z3.Z3Exception:
        return False
    ps = []
    try:
        for opt in ('--solve-bv-as-int=sum', '--solve-bv-as-int=off'):
            f = tempfile.TemporaryFile()
            f.write(q)
            f.seek(0)
            ps.append(subprocess.Popen(['cvc5', '--lang=smt2', opt, '--tlimit=%d' % timeout, '-'], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
            f.close()
        end = time.time() + timeout / 1000 + 2
        live = list(ps)
        while live and time.time() < end:
            time.sleep(0.02)
            for p in list(live):
                if p.poll() is not None:
                    live.remove(p)
                    r = p.stdout.read().strip()
                    if r in (b'unsat', b'sat'):
                        return r == b'unsat'
        return False
    except OSError:
        return False
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()


class Solver:
    """counts and times every query"""
    cache = {}

    def check_sliced(self, pc, c, timeout=None):
        """is c compatible with pc?  Decided on the constraints connected to c;
        -> (result, model, whole) where whole tells that all of pc was used"""
        rel = relevant(pc, c)
        if rel is None or len(rel) == len(pc):
            r, m = self.check(list(pc) + [c], timeout)
            return r, m, True
        key = (c.get_id(), frozenset(q.get_id() for q in rel))
        hit = Solver.cache.get(key)
        if hit is not None:
            return hit[0], None, False
        # constraints about nothing else often decide it alone
        sc = support(c)
        near = [q for q in rel if support(q) <= sc]
        if near and len(near) < len(rel):
            r, m = self.check(near + [c], 1000)
            if r == 'unsat':
                Solver.cache[key] = (r, c, rel)
                return r, None, False
        r, m = self.check(rel + [c], timeout)
        if r != 'unknown':
            Solver.cache[key] = (r, c, rel)
        return r, None, False

    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.first = 1500            # for bit-vectors, before integers are tried
        self.queries = 0
        self.time = 0.0
        self.by = {}

    def check(self, cs, timeout=None):
        """-> ('unsat'|'sat'|'unknown', model)"""
        t0 = time.time()
        self.queries += 1
        timeout = timeout or self.timeout
        r = None
        m = None
        back = 'z3'
        try:
            s = z3.Solver()
            s.set('timeout', min(timeout, self.first))
            s.add(*cs)
            r = s.check()
            if r == z3.unknown and lia.refute(cs, min(timeout, 20000)):
                r, back = z3.unsat, 'z3:integers'
            if r == z3.unknown and timeout > self.first:
                s = z3.Solver()
                s.set('timeout', min(timeout, 4000))
                s.add(*cs)
                r = s.check()
            if r == z3.unknown and timeout > 4000 and cvc5_unsat(s, min(timeout, 20000)):
                r, back = z3.unsat, 'cvc5'
            if r == z3.unknown and timeout > 4000:
                for tac in ('qfufbv_ackr', 'smt'):
                    back = 'z3:' + tac
                    s = z3.Then('simplify', 'solve-eqs', 'bv_size_reduction', tac).solver() if tac != 'smt' else z3.SimpleSolver()
                    s.set('timeout', timeout)
                    s.add(*cs)
                    try:
                        r = s.check()
                    except z3.Z3Exception:
                        r = z3.unknown
                    if r != z3.unknown:
                        break
            if r == z3.sat:
                m = s.model()
        except z3.Z3Exception as e:
            r = z3.unknown
        dt = time.time() - t0
        self.time += dt
        k = 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'
        self.by[back] = self.by.get(back, 0) + 1
        return k, m
