"""Bit-vector constraints over the integers, for refuting them.

Every bit-vector term is represented by the integer it denotes (signed or
unsigned).  Where interval analysis shows that an operation cannot leave the
range of its width it becomes plain integer arithmetic; otherwise the result is
tied to the exact value by a multiple of 2^w.  Terms with no integer meaning
here (bit masks, shifts, parts of words) become unknowns of their range.  Every
model of the bit-vectors is therefore a model of the translation, so that
"unsat" carries over; "sat" says nothing.
"""
import z3


class Fail(Exception):
    pass


class Lia:
    def __init__(self, cs):
        self.side = []
        self.memo = {}
        self.bounds = {}            # (id, signed) -> [lo, hi]
        self.keep = []
        self.n = 0
        self.funs = {}
        flat = []
        todo = list(cs)[::-1]
        while todo:
            c = todo.pop()
            if z3.is_and(c):
                todo.extend(list(c.children())[::-1])
            else:
                flat.append(c)
        self.flat = flat
        self.unsigned = set()
        self.find_unsigned(flat)
        for _ in range(4):
            ch = False
            self.memo_iv = {}
            for c in flat:
                ch |= self.learn(c, True)
            if not ch:
                break
        self.memo_iv = {}

    def find_unsigned(self, cs):
        seen = set()
        todo = list(cs)
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t) or z3.is_var(t):
                raise Fail('quantifier')
            if z3.is_app(t):
                if t.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_ULT, z3.Z3_OP_CONCAT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
                    for a in t.children():
                        self.unsigned.add(a.get_id())
                todo.extend(t.children())

    def part(self, t):
        """an extract of joined words, as the part of the word it lies in"""
        hi, lo = t.params()
        c = t.arg(0)
        while z3.is_app(c) and c.decl().kind() == z3.Z3_OP_CONCAT:
            off = c.size()
            for x in c.children():
                off -= x.size()
                if lo >= off:
                    break
            if hi >= off + x.size():
                break
            c, hi, lo = x, hi - off, lo - off
        if lo == 0 and hi == c.size() - 1:
            return c, None, None
        return c, hi, lo

    # intervals -----------------------------------------------------------
    def rng(self, w, s):
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)

    def iv(self, t, s=True):
        k = (t.get_id(), s)
        r = self.memo_iv.get(k)
        if r is None:
            lo, hi = self.iv0(t, s)
            a, b = self.rng(t.size(), s)
            if lo < a or hi > b:
                lo, hi = a, b
            b2 = self.bounds.get(k)
            if b2:
                lo, hi = max(lo, b2[0]), min(hi, b2[1])
            # the other reading of the same word
            o = self.bounds.get((t.get_id(), not s))
            if o and o[0] >= 0 and o[1] < (1 << (t.size() - 1)):
                lo, hi = max(lo, o[0]), min(hi, o[1])
            if lo > hi:
                lo, hi = a, b
            r = self.memo_iv[k] = (lo, hi)
        return r

    def iv0(self, t, s):
        w = t.size()
        full = self.rng(w, s)
        if z3.is_bv_value(t):
            n = t.as_signed_long() if s else t.as_long()
            return n, n
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_BADD:
            lo = hi = 0
            for c in ch:
                a, b = self.iv(c, True)
                lo, hi = lo + a, hi + b
            if not s and lo < 0:
                return full
            return lo, hi
        if k == z3.Z3_OP_BSUB and len(ch) == 2:
            a, b = self.iv(ch[0], True)
            c, d = self.iv(ch[1], True)
            if not s and a - d < 0:
                return full
            return a - d, b - c
        if k == z3.Z3_OP_BNEG:
            a, b = self.iv(ch[0], True)
            return (-b, -a) if s or b <= 0 else full
        if k == z3.Z3_OP_BMUL and len(ch) == 2:
            a, b = self.iv(ch[0], True)
            c, d = self.iv(ch[1], True)
            p = [a * c, a * d, b * c, b * d]
            return (min(p), max(p)) if s or min(p) >= 0 else full
        if k == z3.Z3_OP_SIGN_EXT:
            a, b = self.iv(ch[0], True)
            return (a, b) if s or a >= 0 else full
        if k == z3.Z3_OP_ZERO_EXT:
            return self.iv(ch[0], False)
        if k == z3.Z3_OP_EXTRACT:
            c, hi, lo = self.part(t)
            if hi is None:
                return self.iv(c, s)
            a, b = self.iv(c, True)
            a, b = a >> lo, b >> lo
            if a >= full[0] and b <= full[1]:
                return a, b
            return full
        if k == z3.Z3_OP_CONCAT:
            a, b = self.iv(ch[0], s)
            n = w - ch[0].size()
            return a << n, (b << n) + (1 << n) - 1
        if k == z3.Z3_OP_ITE:
            a, b = self.iv(ch[1], s)
            c, d = self.iv(ch[2], s)
            return min(a, c), max(b, d)
        return full

    def tighten(self, t, s, lo, hi):
        if z3.is_bv_value(t):
            return False
        a, b = self.iv(t, s)
        if lo is None or lo < a:
            lo = a
        if hi is None or hi > b:
            hi = b
        if (lo, hi) == (a, b) or lo > hi:
            return False
        k = (t.get_id(), s)
        self.bounds[k] = (lo, hi)
        self.keep.append(t)
        self.memo_iv = {}
        kd = t.decl().kind()
        if kd == z3.Z3_OP_SIGN_EXT and s:
            self.tighten(t.arg(0), True, lo, hi)
        if kd == z3.Z3_OP_ZERO_EXT and lo >= 0:
            self.tighten(t.arg(0), False, lo, hi)
        return True

    def learn(self, c, pos):
        if z3.is_not(c):
            return self.learn(c.arg(0), not pos)
        if not z3.is_app(c) or c.num_args() != 2:
            return False
        k = c.decl().kind()
        x, y = c.arg(0), c.arg(1)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if not z3.is_bv(x) or (k == z3.Z3_OP_EQ) != pos:
                return False
            a, b = self.iv(x), self.iv(y)
            r = self.tighten(x, True, *b)
            return self.tighten(y, True, *a) or r
        tab = {z3.Z3_OP_SLT: ('lt', True), z3.Z3_OP_SLEQ: ('le', True), z3.Z3_OP_SGT: ('gt', True), z3.Z3_OP_SGEQ: ('ge', True),
               z3.Z3_OP_ULT: ('lt', False), z3.Z3_OP_ULEQ: ('le', False), z3.Z3_OP_UGT: ('gt', False), z3.Z3_OP_UGEQ: ('ge', False)}
        if k not in tab:
            return False
        op, s = tab[k]
        if not pos:
            op = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}[op]
        if op in ('gt', 'ge'):
            x, y = y, x
            op = {'gt': 'lt', 'ge': 'le'}[op]
        e = 1 if op == 'lt' else 0
        r = self.tighten(x, s, None, self.iv(y, s)[1] - e)
        return self.tighten(y, s, self.iv(x, s)[0] + e, None) or r

    # terms ---------------------------------------------------------------
    def fresh(self, lo, hi):
        self.n += 1
        x = z3.Int('lia!%d' % self.n)
        self.side.append(z3.And(x >= lo, x <= hi))
        return x

    def wrap(self, e, lo, hi, w, s):
        """the word of value e, an integer between lo and hi"""
        a, b = self.rng(w, s)
        if lo >= a and hi <= b:
            return e
        m = 1 << w
        q = self.fresh((lo - a) // m, (hi - a) // m)
        r = self.fresh(a, b)
        self.side.append(e == r + m * q)
        return r

    def conv(self, e, iv, w, s):
        """the same word read the other way: e is its (not s) reading"""
        lo, hi = iv
        h, m = 1 << (w - 1), 1 << w
        if s:
            return e if hi < h else (e - m if lo >= h else z3.If(e >= h, e - m, e))
        return e if lo >= 0 else (e + m if hi < 0 else z3.If(e < 0, e + m, e))

    def num(self, t, s=True):
        k = (t.get_id(), s)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.num0(t, s)
            self.keep.append(t)
        return r

    def leaf(self, t, e_of, signed=False):
        """an unknown word; e_of() makes its value"""
        u = not signed and t.get_id() in self.unsigned
        lo, hi = self.iv(t, not u)
        a, b = self.rng(t.size(), not u)
        x = e_of()
        self.side.append(z3.And(x >= a, x <= b))
        self.memo[(t.get_id(), not u)] = x
        self.memo[(t.get_id(), u)] = self.conv(x, (lo, hi), t.size(), u)

    def name(self, t):
        self.n += 1
        return z3.Int('t!%d' % t.get_id())

    def num0(self, t, s):
        w = t.size()
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_signed_long() if s else t.as_long())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_BADD:
            lo = sum(self.iv(c)[0] for c in ch)
            hi = sum(self.iv(c)[1] for c in ch)
            if s:
                return self.wrap(z3.Sum([self.num(c) for c in ch]), lo, hi, w, True)
        elif k == z3.Z3_OP_BSUB and len(ch) == 2:
            a, b = self.iv(ch[0])
            c, d = self.iv(ch[1])
            if s:
                return self.wrap(self.num(ch[0]) - self.num(ch[1]), a - d, b - c, w, True)
        elif k == z3.Z3_OP_BNEG:
            a, b = self.iv(ch[0])
            if s:
                return self.wrap(-self.num(ch[0]), -b, -a, w, True)
        elif k == z3.Z3_OP_BMUL and len(ch) == 2 and (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])):
            a, b = self.iv(ch[0])
            c, d = self.iv(ch[1])
            p = [a * c, a * d, b * c, b * d]
            if s:
                return self.wrap(self.num(ch[0]) * self.num(ch[1]), min(p), max(p), w, True)
        elif k == z3.Z3_OP_SIGN_EXT:
            if s:
                return self.num(ch[0], True)
        elif k == z3.Z3_OP_ZERO_EXT:
            e = self.num(ch[0], False)
            return e
        elif k == z3.Z3_OP_EXTRACT:
            c, h, l = self.part(t)
            if h is None:
                return self.num(c, s)
            if s:
                lo, hi = self.iv(c)
                e = self.num(c)
                if l:
                    q = self.fresh(lo >> l, hi >> l)
                    self.side.append(z3.And(e - q * (1 << l) >= 0, e - q * (1 << l) < (1 << l)))
                    e = q
                return self.wrap(e, lo >> l, hi >> l, w, True)
        elif k == z3.Z3_OP_CONCAT:
            e = self.num(ch[0], s)
            for x in ch[1:]:
                e = e * (1 << x.size()) + self.num(x, False)
            return e
        elif k == z3.Z3_OP_ITE:
            return z3.If(self.boo(ch[0]), self.num(ch[1], s), self.num(ch[2], s))
        elif k == z3.Z3_OP_SELECT:
            a, i = self.arr(ch[0]), self.num(ch[1])
            self.leaf(t, lambda: z3.Select(a, i), True)
            return self.memo[(t.get_id(), s)]
        elif k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                self.leaf(t, lambda: self.name(t))
            else:
                f = self.fun(t.decl(), z3.IntSort())
                args = [self.any(c) for c in ch]
                self.leaf(t, lambda: f(*args), True)
            return self.memo[(t.get_id(), s)]
        else:
            self.leaf(t, lambda: self.name(t))
            return self.memo[(t.get_id(), s)]
        # no direct reading of that kind: by the signed one
        if s:
            self.leaf(t, lambda: self.name(t))
            return self.memo[(t.get_id(), s)]
        return self.conv(self.num(t, True), self.iv(t, True), w, False)

    def fun(self, d, ret):
        k = d.get_id()
        if k not in self.funs:
            self.funs[k] = z3.Function('f!' + d.name(), *([self.sort(d.domain(i)) for i in range(d.arity())] + [ret]))
            self.keep.append(d)
        return self.funs[k]

    def sort(self, x):
        if x.kind() == z3.Z3_BV_SORT:
            return z3.IntSort()
        if x.kind() == z3.Z3_ARRAY_SORT:
            return z3.ArraySort(self.sort(x.domain()), self.sort(x.range()))
        if x.kind() in (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT):
            return x
        raise Fail('sort')

    def any(self, t):
        if z3.is_bv(t):
            # functions and arrays see words by their signed value
            return self.num(t, True)
        if z3.is_bool(t):
            return self.boo(t)
        if z3.is_array(t):
            return self.arr(t)
        raise Fail('sort')

    def arr(self, t):
        k = ('a', t.get_id())
        if k in self.memo:
            return self.memo[k]
        d = t.decl().kind()
        ch = t.children()
        if t.sort().domain().kind() != z3.Z3_BV_SORT or t.sort().range().kind() != z3.Z3_BV_SORT:
            raise Fail('array')
        if d == z3.Z3_OP_STORE:
            r = z3.Store(self.arr(ch[0]), self.num(ch[1]), self.num(ch[2]))
        elif d == z3.Z3_OP_CONST_ARRAY:
            r = z3.K(z3.IntSort(), self.num(ch[0]))
        elif d == z3.Z3_OP_ITE:
            r = z3.If(self.boo(ch[0]), self.arr(ch[1]), self.arr(ch[2]))
        elif d == z3.Z3_OP_UNINTERPRETED and not ch:
            self.n += 1
            r = z3.Array('a!%d' % t.get_id(), z3.IntSort(), z3.IntSort())
        else:
            raise Fail('array')
        self.memo[k] = r
        self.keep.append(t)
        return r

    def boo(self, c):
        k = ('b', c.get_id())
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.boo0(c)
            self.keep.append(c)
        return r

    def boo0(self, c):
        if z3.is_true(c) or z3.is_false(c):
            return c
        k = c.decl().kind()
        ch = c.children()
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.boo(ch[0]))
        if k == z3.Z3_OP_AND:
            return z3.And([self.boo(x) for x in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.boo(x) for x in ch])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.boo(ch[0]), self.boo(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.boo(ch[0]), self.boo(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boo(ch[0]), self.boo(ch[1]), self.boo(ch[2]))
        if k == z3.Z3_OP_EQ:
            return self.any(ch[0]) == self.any(ch[1])
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct([self.any(x) for x in ch])
        cmp = {z3.Z3_OP_SLT: (0, True), z3.Z3_OP_SLEQ: (1, True), z3.Z3_OP_SGT: (2, True), z3.Z3_OP_SGEQ: (3, True), z3.Z3_OP_ULT: (0, False), z3.Z3_OP_ULEQ: (1, False), z3.Z3_OP_UGT: (2, False), z3.Z3_OP_UGEQ: (3, False)}
        if k in cmp:
            o, s = cmp[k]
            x, y = self.num(ch[0], s), self.num(ch[1], s)
            return (x < y, x <= y, x > y, x >= y)[o]
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return z3.Bool('b!%d' % c.get_id())
            return self.fun(c.decl(), z3.BoolSort())(*[self.any(x) for x in ch])
        return z3.Bool('b!%d' % c.get_id())


def refute(cs, timeout):
    """are the constraints unsatisfiable over the integers?  False: unknown"""
    try:
        t = Lia(cs)
        out = [t.boo(c) for c in t.flat]
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*t.side)
        s.add(*out)
        return s.check() == z3.unsat
    except (Fail, z3.Z3Exception, RecursionError):
        return False
