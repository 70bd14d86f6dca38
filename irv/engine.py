"""Symbolic execution / verification-condition generation over clang's LLVM IR.

Functions are executed for all inputs at once.  Calls go, in this order, to
 1. a contract of the unit being verified (precondition becomes an obligation,
    the result is whatever the postcondition allows),
 2. an assumed contract (std::, Win32, C library: irv/std.py and the unit's own),
 3. the callee's own body (inlined) - so a function extracted from, or merged
    into, a function under contract needs no contract of its own.
Loops are cut by invariants (LoopSpec) or unrolled until their exit condition
is decided; an undecided loop without invariant is 'unsupported', never
silently truncated.
"""
import re, time, z3
from llparse import Module, Function, demangle
from sym import *
import sym


class State:
    __slots__ = ('pc', 'mem', 'ghost', 'model')

    def __init__(self):
        self.pc = ()
        self.mem = {}
        self.ghost = {}
        self.model = None

    def copy(self):
        s = State()
        s.pc, s.mem, s.ghost, s.model = self.pc, dict(self.mem), dict(self.ghost), self.model
        return s

    def assume(self, c):
        if c is True or (isinstance(c, int) and c):
            return self
        c = boolv(c)
        if z3.is_true(c):
            return self
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return self
        self.pc = self.pc + (c,)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None
        return self


class Ret:
    def __init__(self, v):
        self.v = v


class Throw:
    """exc: (typeinfo symbol, Ptr)"""
    def __init__(self, ti, ptr):
        self.ti, self.ptr = ti, ptr


class NoReturn:
    pass


class Outs:
    """several results of a handler: [(state, Ret|Throw|NoReturn)]"""
    def __init__(self, lst):
        self.lst = lst


class LoopSpec:
    def __init__(self, name, inv, fn=None, vars=None, ghost_havoc=None, decreases=None, on_head=None, extra_mod=None,
                 optional=False, types=None, havoc=None, unroll=None):
        self.name, self.inv, self.fn = name, inv, fn
        self.vars = vars or {}
        self.ghost_havoc = ghost_havoc or {}
        self.decreases = decreases
        self.on_head = on_head
        self.extra_mod = extra_mod
        self.optional = optional
        self.havoc = havoc
        self.used = False


class Missing(Exception):
    pass


class LoopCtx:
    """what a loop invariant sees"""

    def __init__(self, E, fn, st, regs, binding, entry=None, modified=None):
        self.E, self.fn, self.st, self.regs, self.binding = E, fn, st, regs, binding
        self.entry = entry
        self.modified = modified or set()

    def slot(self, name):
        if name in self.binding:
            return self.regs[self.binding[name]]
        r = self.E.find_local(self.fn, self.regs, self.st, name, self.modified)
        if r is None:
            raise Missing(name)
        return self.regs[r]

    def __getitem__(self, name):
        p = self.slot(name)
        o = self.st.mem[p.oid]
        return self.E.load_raw(self.st, p, o.size, o.elem)

    def at(self, st):
        return LoopCtx(self.E, self.fn, st, self.regs, self.binding, None, self.modified)

    @property
    def old(self):
        return self.at(self.entry)


class Obligation:
    __slots__ = ('unit', 'fn', 'kind', 'name', 'loc', 'status', 'count', 'time', 'model', 'detail', 'solver')


class Engine:
    def __init__(self, mods, solver=None):
        self.mods = mods
        self.guessed = False
        self.solver = solver or Solver()
        self.symtab = {}
        for m in mods:
            for n, f in m.funcs.items():
                if not f.internal:
                    self.symtab.setdefault(n, f)
        self.dem = {}
        names = set()
        for m in mods:
            names.update(m.funcs); names.update(m.decls)
            names.update(n for n in m.globals if n.startswith('@_Z'))
        d = demangle(sorted(names))
        if mods and all(getattr(m, 'linux', False) for m in mods):
            d = {k: re.sub(r'unsigned long(?! long)', 'unsigned long long', v) for k, v in d.items()}
        self.dem = {k: normname(v) for k, v in d.items()}
        self.handlers = []        # (compiled regex, fn, trusted-name)
        self.hcache = {}
        self.contracts = []       # (regex, fn, label)
        self.obl = {}
        self.unit = None
        self.curfn = []
        self.loc = None
        self.next_oid = 1
        self.globals = {}         # (tag,name) -> Obj (initial)
        self.global_oid = {}
        self.oid_global = {}
        self.quiet = 0
        self.unroll = 80
        self.trusted_used = set()
        self.inlined = set()
        self.contracts_used = set()
        self.loops = []
        self.loop_assign = {}
        self.depth = 0
        self.ti_bases = None
        self.inputs = {}
        self.max_paths = 20000
        self.paths = 0
        self.failed_first = None
        self.deadline = None
        self.fn_overrides = {}
        self.merge = True
        self.bases = {}       # addresses: term id -> (term, object)
        self.base_of = {}
        self.check_overflow = True
        self.debug = False
        self._pcids, self._simp = {}, {}
        self.lean = False     # do not add discharged overflow conditions to the path condition
        self.targets = []
        self.join_loops = True
        self.mulhook = None   # names products of two unknowns: fn(E, st, a, b, w) -> term or None
        self.remhook = None   # names remainders: fn(E, st, op, a, b, w) -> term or None
        self.divhook = None   # names quotients by an unknown: fn(E, st, op, a, b, w) -> term or None
        self.divfacts = None  # {} : divisions by constants become named quotients with their defining facts
        self.divmax, self.divlog = {}, []

    # ---- helpers -----------------------------------------------------------
    def find_fn(self, pat):
        r = re.compile(pat)
        hits = []
        for m in self.mods:
            for n, f in m.funcs.items():
                if r.search(self.dem.get(n, n)):
                    if f not in hits and (f.internal or self.symtab.get(n) is f):
                        hits.append(f)
        if len(hits) != 1:
            raise Unsupported('function %r: %d definitions found' % (pat, len(hits)))
        return hits[0]

    def new_oid(self):
        self.next_oid += 1
        return self.next_oid

    def add_obj(self, st, o):
        i = self.new_oid()
        st.mem[i] = o
        return i

    def new_cells(self, st, size, name, lazy=None):
        o = Obj('cells', size, name)
        o.lazy = lazy
        return Ptr(self.add_obj(st, o), 0)

    def sym_base(self, p, name):
        """give the object an address: pointers to it can be stored in arrays, and
        integers computed from the address are pointers into it again"""
        t = z3.BitVec(name, 64)
        self.bases[t.get_id()] = (t, p.oid)
        self.base_of[p.oid] = t
        return t

    def as_ptr(self, v):
        """an integer read as a pointer"""
        if isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            return Ptr(0, to_signed(v, 64))
        if self.bases:
            c, t = linear(v)
            hit = [i for i, (x, k) in t.items() if i in self.bases and k == 1]
            if len(hit) == 1:
                x, oid = self.bases[hit[0]]
                return Ptr(oid, sub64(v, x))
        return Ptr(0, v)

    def new_arr(self, st, stride, fields, count, name, farrs=None):
        o = Obj('arr', None, name)
        o.stride = stride
        o.fields = {f: (w, (farrs[f] if farrs else FArr.base(8 * w, name + '.%d' % f))) for f, w in fields.items()}
        o.count = count
        return Ptr(self.add_obj(st, o), 0)

    # ---- obligations -------------------------------------------------------
    def where(self):
        fn = self.curfn[-1] if self.curfn else (self.targets[-1] if self.targets else str(self.unit))
        l = self.loc
        if l and l[0]:
            import os
            return fn, '%s:%s' % (os.path.basename(l[0]), l[1])
        return fn, None

    def oblige(self, st, cond, kind, name):
        if self.quiet:
            if cond is not True and cond is not False:
                st.assume(cond)
            return
        fn, loc = self.where()
        key = (fn, kind, name, loc)
        o = self.obl.get(key)
        if o is None:
            o = Obligation()
            o.unit = self.unit
            o.fn, o.kind, o.name, o.loc = fn, kind, name, loc
            o.status, o.count, o.time, o.model, o.detail, o.solver = 'discharged', 0, 0.0, None, None, 'evaluation'
            self.obl[key] = o
        o.count += 1
        if cond is True or (isinstance(cond, int) and not isinstance(cond, bool) and cond):
            return
        if cond is not False:
            cond = boolv(cond)
            if z3.is_true(cond):
                return
        else:
            cond = z3.BoolVal(False)
        t0 = time.time()
        r, m, whole = self.solver.check_sliced(st.pc, z3.Not(cond))
        if r != 'unsat' and not whole:
            r, m = self.solver.check(list(st.pc) + [z3.Not(cond)])
        o.time += time.time() - t0
        o.solver = 'z3'
        if r == 'unsat':
            if not z3.is_false(cond) and not (self.lean and kind == 'arithmetic'):
                st.assume(cond)
            return
        if r == 'unknown':
            if o.status == 'discharged':
                o.status = 'unknown'
            st.assume(cond)
            return
        if o.status != 'failed':
            o.status = 'failed'
            o.model = {}
            for k, t in self.inputs.items():
                try:
                    v = m.eval(t, model_completion=True)
                    o.model[k] = v.as_long() if isinstance(v, z3.BitVecNumRef) else str(v)
                except Exception:
                    pass
            o.detail = str(z3.simplify(cond))[:600] if len(cond.sexpr()) < 20000 else '(large formula)'
            if self.debug:
                print('FAILED', key, o.model, o.detail)
        st.assume(cond)

    def oblige_all(self, st, items):
        """[(cond, kind, name)]: proved together when that works, else one by one;
        none of them is added to the path"""
        t0 = time.time()
        conds = [boolv(c) for c, k, n in items if not (c is True or (isinstance(c, z3.BoolRef) and z3.is_true(c)))]
        ok = not conds
        if conds and not self.quiet:
            c = z3.simplify(z3.And(*conds))
            ok = z3.is_true(c)
            if not ok and not z3.is_false(c):
                r, m, whole = self.solver.check_sliced(st.pc, z3.Not(c))
                ok = r == 'unsat'
        dt = (time.time() - t0) / max(1, len(items))
        for c, kind, name in items:
            if ok:
                self.oblige(st, True, kind, name)
                o = self.obl.get(self.where()[:1] + (kind, name) + self.where()[1:])
                if o is not None:
                    o.time += dt
                    if c is not True:
                        o.solver = 'z3'
            else:
                self.oblige(st.copy(), c, kind, name)

    def feasible(self, st, c):
        """may st.pc and c hold together?  keeps st.model"""
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)):
                    return st.model
            except z3.Z3Exception:
                pass
        r, m, whole = self.solver.check_sliced(st.pc, c, timeout=5000)
        if r == 'unsat':
            return None
        return m if m is not None else True

    def fork(self, st, c):
        """-> [(state, truth)] for a boolean c"""
        if isinstance(c, (int, bool)):
            return [(st, bool(c))]
        c = z3.simplify(boolv(c))
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        if st.pc:
            ids = self.pc_ids(st.pc)
            nc = z3.simplify(z3.Not(c))
            if c.get_id() in ids:
                return [(st, True)]
            if nc.get_id() in ids:
                return [(st, False)]
        mt = self.feasible(st, c)
        if mt is None:
            # the path itself is possible, so the other side is
            st.pc = st.pc + (z3.Not(c),)
            return [(st, False)]
        mf = self.feasible(st, z3.Not(c))
        out = []
        if mt is not None:
            s = st.copy() if mf is not None else st
            s.pc = s.pc + (c,)
            s.model = mt if mt is not True else None
            out.append((s, True))
        if mf is not None:
            st.pc = st.pc + (z3.Not(c),)
            st.model = mf if mf is not True else None
            out.append((st, False))
        if len(out) == 2:
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('path limit')
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit')
        return out

    def pc_ids(self, pc):
        """ids of the (simplified) members of a path condition"""
        r = self._pcids.get(id(pc))
        if r is None or r[0] is not pc:
            ids = set()
            for q in pc:
                k = q.get_id()
                sq = self._simp.get(k)
                if sq is None:
                    x = z3.simplify(q)
                    parts = [x] + (x.children() if z3.is_and(x) else [])
                    sq = self._simp[k] = (q, parts)
                ids.update(y.get_id() for y in sq[1])
            r = self._pcids[id(pc)] = (pc, frozenset(ids))
            if len(self._pcids) > 5000:
                self._pcids.clear()
        return r[1]

    def must(self, st, c):
        """is c implied by the path condition?"""
        if isinstance(c, (int, bool)):
            return bool(c)
        c = z3.simplify(boolv(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if st.model is not None:
            try:
                if z3.is_false(st.model.eval(c, model_completion=True)):
                    return False
            except z3.Z3Exception:
                pass
        r, m, whole = self.solver.check_sliced(st.pc, z3.Not(c), timeout=5000)
        return r == 'unsat'

    def concretize(self, st, v, w, limit=64):
        """-> [(state, int)] all values of v (forking)"""
        if isinstance(v, int):
            return [(st, v)]
        out = []
        cur = st
        while True:
            r, m = self.solver.check(list(cur.pc))
            if r != 'sat':
                break
            x = m.eval(bv(v, w), model_completion=True)
            k = x.as_long()
            res = self.fork(cur, bv(v, w) == x)
            nxt = None
            for s, t in res:
                if t:
                    out.append((s, k))
                else:
                    nxt = s
            if nxt is None:
                break
            cur = nxt
            if len(out) > limit:
                raise Unsupported('concretize: too many values')
        return out

    # ---- memory ------------------------------------------------------------
    def getobj(self, st, p, what):
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if p.oid == 0:
            self.oblige(st, False, 'memory', '%s through null or opaque pointer' % what)
            raise Abort()
        o = st.mem.get(p.oid)
        if o is None:
            if p.oid in self.oid_global:
                o = self.init_global(st, p.oid)
            else:
                self.oblige(st, False, 'memory', '%s of dead object' % what)
                raise Abort()
        if not o.alive:
            self.oblige(st, False, 'memory', '%s of freed object %s' % (what, o.name))
            raise Abort()
        return o

    def wobj(self, st, p):
        o = st.mem[p.oid].clone()
        st.mem[p.oid] = o
        return o

    def inb(self, st, o, off, n, what):
        """bounds obligation"""
        if o.kind == 'arr':
            total = o.count if o.stride == 1 else mul64(o.count, o.stride)
        else:
            total = o.size
        if isinstance(off, int) and isinstance(total, int):
            ok = 0 <= off and off + n <= total
            self.oblige(st, ok, 'memory', '%s in bounds of %s' % (what, clean(o.name)))
            if not ok:
                raise Abort()
            return
        a = bv(off, 64)
        t = bv(total, 64)
        c = z3.And(z3.ULE(bv(n, 64), t), z3.ULE(a, t - bv(n, 64)))
        self.oblige(st, c, 'memory', '%s in bounds of %s' % (what, clean(o.name)))

    def load(self, st, p, ty, mod):
        ty = mod.resolve(ty)
        if ty[0] == 'struct':
            offs, sz = mod.struct_layout(ty)
            return Agg([self.load(st, Ptr(p.oid, add64(p.off, o)), t, mod) for o, t in zip(offs, ty[1])])
        if ty[0] == 'arr':
            es = mod.size(ty[2])
            return Agg([self.load(st, Ptr(p.oid, add64(p.off, i * es)), ty[2], mod) for i in range(ty[1])])
        n = mod.size(ty)
        o = self.getobj(st, p, 'read')
        self.inb(st, o, p.off, n, 'read')
        v = self.load_raw(st, p, n, ty)
        if ty[0] == 'i' and ty[1] < 8 * n:
            if ty[1] == 1:
                if isinstance(v, int):
                    return v & 1
                if isinstance(v, z3.BitVecRef):
                    # (zext b) stored by the front end
                    if z3.is_app_of(v, z3.Z3_OP_ITE) and isinstance(v.arg(1), z3.BitVecNumRef) and isinstance(v.arg(2), z3.BitVecNumRef) and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
                        return v.arg(0)
                    return z3.Extract(0, 0, v) == 1
            raise Unsupported('odd int load')
        return v

    def load_raw(self, st, p, n, ty):
        o = st.mem.get(p.oid)
        if o is None:
            o = self.init_global(st, p.oid)
        isptr = ty is not None and ty[0] == 'ptr'
        if o.kind == 'arr':
            v = self.arr_load(st, o, p.off, n)
        elif isinstance(p.off, int):
            v = self.cell_load(st, p.oid, p.off, n, isptr)
        else:
            o2 = self.to_arr(st, p.oid)
            if o2 is not None:
                v = self.arr_load(st, o2, p.off, n)
            else:
                v = self.cells_sym_load(st, p, n)
        if isptr:
            if isinstance(v, PtrInt):
                v = v.p
            if isinstance(v, int) or isinstance(v, z3.BitVecRef):
                v = self.as_ptr(v)
        else:
            if isinstance(v, Ptr):
                v = v.off & mask(64) if v.oid == 0 and isinstance(v.off, int) else v.off if v.oid == 0 else PtrInt(v)
        return v

    def cells_sym_load(self, st, p, n):
        r = divmod_lin_any(p.off)
        o = st.mem[p.oid]
        if r is None or not isinstance(o.size, int):
            raise Unsupported('symbolic offset into %s' % o.name)
        c, idx, stride = r
        if o.size // stride > 600:
            raise Unsupported('symbolic offset into large %s' % o.name)
        lo = c % stride
        res = None
        k = lo
        cands = []
        while k + n <= o.size:
            cands.append(k)
            k += stride
        for k in reversed(cands):
            v = self.cell_load(st, p.oid, k, n, False)
            if not (isinstance(v, int) or isinstance(v, z3.BitVecRef)):
                raise Unsupported('symbolic offset over pointers in %s' % o.name)
            res = v if res is None else ite(bv(p.off, 64) == k, v, res, 8 * n)
        if res is None:
            raise Unsupported('symbolic offset')
        return res

    def to_arr(self, st, oid):
        """turn an array-typed local into a strided object"""
        o = st.mem[oid]
        if o.elem is None or o.elem[0] != 'arr':
            return None
        et = o.elem[2]
        if et[0] != 'i' or not isinstance(o.size, int):
            return None
        n = et[1] // 8
        cnt = o.size // n
        a = FArr.base(et[1], clean(o.name))
        for i in range(cnt):
            if self.has_cell(o, i * n, n):
                v = self.cell_load(st, oid, i * n, n, False)
                a = a.set(i, v)
        o2 = Obj('arr', None, o.name)
        o2.stride, o2.fields, o2.count, o2.elem = n, {0: (n, a)}, cnt, o.elem
        o2.ro = o.ro
        st.mem[oid] = o2
        return o2

    def has_cell(self, o, off, n):
        for (a, sz) in ((k, v[0]) for k, v in o.cells.items()):
            if a < off + n and off < a + sz:
                return True
        return any(a <= off and off + n <= b for a, b, _ in o.fills)

    def arr_load(self, st, o, off, n):
        r = divmod_lin(off, o.stride)
        if r is None:
            raise Unsupported('unaligned access to %s' % o.name)
        q, f = r
        if f in o.fields and o.fields[f][0] == n:
            return norm(o.fields[f][1].read(q), 8 * n)
        # compose from smaller pieces
        parts = []
        k = 0
        while k < n:
            qq, ff = q, f + k
            qq = add64(q, ff // o.stride)
            ff = ff % o.stride
            if ff not in o.fields:
                for g, (w, a) in o.fields.items():
                    if g <= ff and ff + n - k <= g + w:
                        x = bv(a.read(qq), 8 * w)
                        sh = 8 * (ff - g)
                        parts.append(z3.Extract(sh + 8 * (n - k) - 1, sh, x))
                        k = n
                        break
                else:
                    raise Unsupported('field %d of %s' % (ff, o.name))
                break
            w, a = o.fields[ff]
            if w > n - k:
                x = bv(a.read(qq), 8 * w)
                parts.append(z3.Extract(8 * (n - k) - 1, 0, x))
                k = n
            else:
                parts.append(bv(a.read(qq), 8 * w))
                k += w
        v = z3.simplify(z3.Concat(*reversed(parts))) if len(parts) > 1 else parts[0]
        return norm(v, 8 * n)

    def cell_load(self, st, oid, off, n, isptr):
        o = st.mem[oid]
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        over = [(a, s, v) for a, (s, v) in o.cells.items() if a < off + n and off < a + s]
        if not over:
            for a, b, byte in reversed(o.fills):
                if a <= off and off + n <= b:
                    if isinstance(byte, int):
                        return sum(byte << (8 * i) for i in range(n))
                    return z3.Concat(*([byte] * n)) if n > 1 else byte
                if a < off + n and off < b:
                    break
            else:
                v = None
                if o.lazy:
                    v = o.lazy(self, st, off, n, isptr)
                if v is None:
                    if isptr:
                        raise Unsupported('unknown pointer read from %s+%d' % (o.name, off))
                    v = z3.BitVec('%s+%d:%d#%s' % (clean(o.name), off, n, oid), 8 * n)
                w = self.wobj(st, Ptr(oid))
                w.cells[off] = (n, v)
                return v
        # compose bytewise over maximal runs
        parts = []
        k = off
        end = off + n
        over.sort()
        while k < end:
            hit = None
            for a, s, v in over:
                if a <= k < a + s:
                    hit = (a, s, v)
                    break
            if hit:
                a, s, v = hit
                m = min(end, a + s) - k
                if isinstance(v, (Ptr, PtrInt, Seq, FnPtr)):
                    if isinstance(v, Ptr) and v.oid == 0:
                        v = v.off
                    else:
                        raise Unsupported('partial read of pointer in %s' % o.name)
                if isinstance(v, int):
                    parts.append(z3.BitVecVal((v >> (8 * (k - a))) & mask(8 * m), 8 * m))
                else:
                    parts.append(z3.Extract(8 * (k - a + m) - 1, 8 * (k - a), v))
                k += m
            else:
                m = 1
                while k + m < end and not any(a <= k + m < a + s for a, s, v in over):
                    m += 1
                if k == off and m == n:
                    m = 1
                v = None
                for a, b, byte in reversed(o.fills):
                    if a <= k < b:
                        m = min(m, b - k)
                        v = sum(byte << (8 * i) for i in range(m)) if isinstance(byte, int) else (z3.Concat(*([byte] * m)) if m > 1 else byte)
                        break
                else:
                    for a, b, byte in o.fills:
                        if k < a < k + m:
                            m = a - k
                    v = self.cell_load(st, oid, k, m, False)
                parts.append(bv(v, 8 * m))
                k += m
        v = z3.simplify(z3.Concat(*reversed(parts))) if len(parts) > 1 else parts[0]
        return norm(v, 8 * n)

    def store(self, st, p, v, ty, mod):
        ty = mod.resolve(ty)
        if ty[0] == 'struct':
            offs, sz = mod.struct_layout(ty)
            if isinstance(v, Agg):
                for o, t, x in zip(offs, ty[1], v.v):
                    self.store(st, Ptr(p.oid, add64(p.off, o)), x, t, mod)
                return
            raise Unsupported('aggregate store')
        if ty[0] == 'arr':
            es = mod.size(ty[2])
            for i, x in enumerate(v.v):
                self.store(st, Ptr(p.oid, add64(p.off, i * es)), x, ty[2], mod)
            return
        n = mod.size(ty)
        o = self.getobj(st, p, 'write')
        if o.ro:
            self.oblige(st, False, 'memory', 'write to read-only %s' % clean(o.name))
            raise Abort()
        self.inb(st, o, p.off, n, 'write')
        if ty[0] == 'i':
            v = bv(v, 8 * n) if isinstance(v, z3.BoolRef) else v
            if isinstance(v, int):
                v &= mask(8 * n)
        self.store_raw(st, p, v, n)

    def store_raw(self, st, p, v, n):
        o = st.mem.get(p.oid)
        if o is None:
            o = self.init_global(st, p.oid)
        if o.kind == 'cells' and not isinstance(p.off, int):
            o2 = self.to_arr(st, p.oid)
            if o2 is None:
                r = divmod_lin_any(p.off)
                if r is None or not isinstance(o.size, int) or o.size // r[2] > 300:
                    raise Unsupported('symbolic store offset into %s' % o.name)
                c, idx, stride = r
                k = c % stride
                while k + n <= o.size:
                    old = self.cell_load(st, p.oid, k, n, False)
                    w = self.wobj(st, p)
                    if not (isinstance(old, int) or is_sym(old)) or not (isinstance(v, int) or is_sym(v)):
                        raise Unsupported('symbolic store over pointers')
                    w.cells[k] = (n, ite(bv(p.off, 64) == k, v, old, 8 * n))
                    k += stride
                return
            o = o2
        if o.kind == 'arr':
            if isinstance(v, Ptr):
                if v.oid in self.base_of:
                    v = add64(self.base_of[v.oid], v.off)
                elif v.oid != 0:
                    raise Unsupported('pointer stored in array')
                else:
                    v = v.off
            if isinstance(v, (PtrInt, Seq, FnPtr)):
                raise Unsupported('pointer stored in array')
            r = divmod_lin(p.off, o.stride)
            if r is None:
                raise Unsupported('unaligned store to %s' % o.name)
            q, f = r
            w = self.wobj(st, p)
            k = 0
            while k < n:
                qq = add64(q, (f + k) // w.stride)
                ff = (f + k) % w.stride
                if ff not in w.fields or w.fields[ff][0] > n - k:
                    raise Unsupported('field store %d of %s' % (ff, o.name))
                fw, a = w.fields[ff]
                if fw == n:
                    x = v
                elif isinstance(v, int):
                    x = (v >> (8 * k)) & mask(8 * fw)
                else:
                    x = z3.Extract(8 * (k + fw) - 1, 8 * k, v)
                w.fields[ff] = (fw, a.set(qq, x))
                k += fw
            return
        off = p.off
        w = self.wobj(st, p)
        c = w.cells.get(off)
        if c is not None and c[0] == n:
            w.cells[off] = (n, v)
            return
        self.carve(w, off, n)
        w.cells[off] = (n, v)

    def carve(self, w, off, n):
        for a, (s, v) in list(w.cells.items()):
            if a < off + n and off < a + s:
                del w.cells[a]
                if a < off or a + s > off + n:
                    if isinstance(v, Ptr) and v.oid == 0:
                        v = v.off
                    if isinstance(v, (Ptr, PtrInt, Seq, FnPtr)):
                        if isinstance(v, Seq):
                            raise Unsupported('partial overwrite of container in ' + w.name)
                        raise Unsupported('partial overwrite of pointer')
                    if a < off:
                        m = off - a
                        w.cells[a] = (m, v & mask(8 * m) if isinstance(v, int) else z3.Extract(8 * m - 1, 0, v))
                    if a + s > off + n:
                        m = a + s - off - n
                        b = off + n - a
                        w.cells[off + n] = (m, (v >> (8 * b)) & mask(8 * m) if isinstance(v, int) else
                                            z3.Extract(8 * s - 1, 8 * b, v))

    def memcpy(self, st, d, s, n):
        """n: int or term"""
        if isinstance(n, int) and n == 0:
            return
        so = self.getobj(st, s, 'read')
        do = self.getobj(st, d, 'write')
        if isinstance(n, int):
            self.inb(st, so, s.off, n, 'read')
            self.inb(st, do, d.off, n, 'write')
        else:
            for o, p, w in ((so, s, 'read'), (do, d, 'write')):
                self.inb_sym(st, o, p.off, n, w)
        if do.ro:
            self.oblige(st, False, 'memory', 'write to read-only')
            raise Abort()
        if so.kind == 'cells' and do.kind == 'cells' and isinstance(n, int) and isinstance(s.off, int) and isinstance(d.off, int):
            # copy cells
            items = []
            k = s.off
            end = s.off + n
            while k < end:
                so = st.mem[s.oid]
                c = so.cells.get(k)
                if c is not None and k + c[0] <= end:
                    items.append((k - s.off, c[0], c[1]))
                    k += c[0]
                    continue
                # fill?
                over = [(a, x) for a, (x, v) in so.cells.items() if a < end and k < a + x]
                if over and min(over)[0] <= k:
                    m = min(end, min(over)[0] + min(over)[1]) - k
                    items.append((k - s.off, m, self.cell_load(st, s.oid, k, m, False)))
                    k += m
                    continue
                lim = min([end] + [a for a, _ in over])
                m = 8
                while m > 1 and (k % m or k + m > lim):
                    m //= 2
                if so.lazy is None and not any(a < lim and k < b for a, b, _ in so.fills):
                    # uninitialised: leave undefined
                    m = lim - k if False else m
                v = self.cell_load(st, s.oid, k, m, False)
                items.append((k - s.off, m, v))
                k += m
            w = self.wobj(st, d)
            self.carve(w, d.off, n)
            for o, m, v in items:
                w.cells[d.off + o] = (m, v)
            return
        if isinstance(n, int):
            # element-wise if small
            step = None
            if so.kind == 'arr' or do.kind == 'arr':
                a = so if so.kind == 'arr' else do
                step = min(w for w, _ in a.fields.values())
                if so.kind == 'arr' and do.kind == 'arr':
                    step = min(step, min(w for w, _ in do.fields.values()))
            if step and n % step == 0 and n // step <= 64:
                vals = [self.load_raw(st, Ptr(s.oid, add64(s.off, k)), step, None) for k in range(0, n, step)]
                for i, v in enumerate(vals):
                    self.store_raw(st, Ptr(d.oid, add64(d.off, i * step)), v, step)
                return
        if so.kind == 'cells':
            so = self.to_arr(st, s.oid)
        if do.kind == 'cells':
            do = self.to_arr(st, d.oid)
        if so is None or do is None:
            raise Unsupported('bulk copy between unlike objects')
        if so.stride == 1 and do.stride in (2, 4, 8) and set(do.fields) == {0} and do.fields[0][0] == do.stride:
            rd, rn = divmod_lin(d.off, do.stride), divmod_lin(n, do.stride)
            if rd and rn and not rd[1] and not rn[1]:
                w = self.wobj(st, d)
                fw, a = w.fields[0]
                w.fields[0] = (fw, a.copy(rd[0], rn[0], as_words(so.fields[0][1], do.stride, s.off), 0))
                return
        if do.stride == 1 and so.stride in (2, 4, 8) and set(so.fields) == {0} and so.fields[0][0] == so.stride:
            w = self.wobj(st, d)
            fw, a = w.fields[0]
            w.fields[0] = (fw, a.copy(d.off, n, as_bytes(so.fields[0][1], so.stride), s.off))
            return
        if so.stride != do.stride or set(so.fields) != set(do.fields):
            raise Unsupported('bulk copy between unlike arrays')
        rs, rd, rn = divmod_lin(s.off, so.stride), divmod_lin(d.off, do.stride), divmod_lin(n, so.stride)
        if rs is None or rd is None or rn is None or rs[1] or rd[1] or rn[1]:
            raise Unsupported('bulk copy not a whole number of elements')
        w = self.wobj(st, d)
        for f in w.fields:
            fw, a = w.fields[f]
            w.fields[f] = (fw, a.copy(rd[0], rn[0], so.fields[f][1], rs[0]))

    def inb_sym(self, st, o, off, n, what):
        if o.kind == 'arr':
            total = mul64(o.count, o.stride)
        else:
            total = o.size
        a, t, k = bv(off, 64), bv(total, 64), bv(n, 64)
        c = z3.And(z3.ULE(k, t), z3.ULE(a, t - k))
        self.oblige(st, z3.Or(k == 0, c), 'memory', '%s range in bounds of %s' % (what, clean(o.name)))

    # ---- globals -----------------------------------------------------------
    def global_ptr(self, name, mod):
        k = (mod.tag, name)
        oid = self.global_oid.get(k)
        if oid is None:
            # external linkage: share one definition
            d = mod
            if name in mod.globals:
                g = mod.global_def(name)
                if g[0] != 'alias' and g[2] is None:
                    for m in self.mods:
                        if name in m.globals and m.global_def(name)[0] != 'alias' and m.global_def(name)[2] is not None:
                            d = m
                            break
            k2 = (d.tag, name)
            oid = self.global_oid.get(k2)
            if oid is None:
                oid = 'g:%s:%s' % k2
                self.global_oid[k2] = oid
                self.oid_global[oid] = (name, d)
            self.global_oid[k] = oid
        return Ptr(oid, 0)

    def init_global(self, st, oid):
        name, mod = self.oid_global[oid]
        kind, ty, init = mod.global_def(name)
        sz = mod.size(ty)
        rt = mod.resolve(ty)
        o = Obj('cells', sz, name)
        o.elem = None
        if rt[0] == 'arr' and mod.resolve(rt[2])[0] == 'i':
            o.elem = ('arr', rt[1], mod.resolve(rt[2]))
        o.ro = kind == 'constant'
        st.mem[oid] = o
        if init is not None:
            self.init_cells(st, o, 0, ty, init, mod)
        return o

    def init_cells(self, st, o, off, ty, v, mod):
        ty = mod.resolve(ty)
        k = v[0]
        if k in ('zero', 'undef'):
            o.fills = o.fills + ((off, off + mod.size(ty), 0),)
            return
        if k == 'cstr':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if ty[0] == 'struct':
                offs, _ = mod.struct_layout(ty)
                for x, (t, e) in zip(offs, v[1]):
                    self.init_cells(st, o, off + x, t, e, mod)
            else:
                es = mod.size(ty[2])
                for i, (t, e) in enumerate(v[1]):
                    self.init_cells(st, o, off + i * es, t, e, mod)
            return
        x = self.const(v, ty, mod)
        o.cells[off] = (mod.size(ty), x)

    def const(self, v, ty, mod):
        k = v[0]
        if k == 'int':
            ty = mod.resolve(ty)
            return v[1] & mask(ty[1])
        if k == 'null':
            return NULL
        if k == 'glob':
            n = v[1]
            if n in mod.funcs or n in mod.decls:
                return FnPtr(n, mod)
            if n in mod.globals and mod.global_def(n)[0] == 'alias':
                return FnPtr(mod.global_def(n)[2], mod)
            return self.global_ptr(n, mod)
        if k == 'zero':
            ty = mod.resolve(ty)
            return self.zero(ty, mod)
        if k == 'undef':
            ty = mod.resolve(ty)
            if ty[0] == 'i':
                return fresh('undef', ty[1])
            if ty[0] == 'struct':
                return Agg([self.const(('undef',), t, mod) for t in ty[1]])
            if ty[0] == 'arr':
                return Agg([self.const(('undef',), ty[2], mod) for _ in range(ty[1])])
            if ty[0] == 'ptr':
                return NULL
            raise Unsupported('undef')
        if k == 'agg':
            return Agg([self.const(e, t, mod) for t, e in v[1]])
        if k == 'gep':
            base = self.const(v[2][1], ('ptr',), mod)
            return self.gep(mod, v[1], base, [(t, self.const(x, t, mod)) for t, x in v[3]])
        if k == 'cast':
            x = self.const(v[2][1], v[2][0], mod)
            return self.cast(v[1], x, mod.resolve(v[2][0]), mod.resolve(v[3]))
        if k == 'expr':
            a = self.const(v[2][0][1], v[2][0][0], mod)
            b = self.const(v[2][1][1], v[2][1][0], mod)
            return self.binop(None, v[1], a, b, mod.resolve(v[2][0][0])[1], ())
        if k == 'fp':
            return float(v[1]) if not v[1].startswith('0x') else ('fp', v[1])
        raise Unsupported('const ' + k)

    def zero(self, ty, mod):
        ty = mod.resolve(ty)
        if ty[0] == 'i':
            return 0
        if ty[0] == 'ptr':
            return NULL
        if ty[0] == 'struct':
            return Agg([self.zero(t, mod) for t in ty[1]])
        if ty[0] == 'arr':
            return Agg([self.zero(ty[2], mod)] * ty[1])
        raise Unsupported('zero')

    def gep(self, mod, srcty, base, idx):
        if isinstance(base, FnPtr):
            raise Unsupported('gep on function')
        t = srcty
        off = 0
        first = True
        for it, v in idx:
            if first:
                k = mod.size(t)
                off = add64(off, mul64(self.idx64(v, it, mod), k))
                first = False
                continue
            rt = mod.resolve(t)
            if rt[0] == 'struct':
                offs, _ = mod.struct_layout(rt)
                off = add64(off, offs[v])
                t = rt[1][v]
            elif rt[0] in ('arr', 'vec'):
                k = mod.size(rt[2])
                off = add64(off, mul64(self.idx64(v, it, mod), k))
                t = rt[2]
            else:
                raise Unsupported('gep type')
        p = Ptr(base.oid, add64(base.off, off))
        if p.oid in self.subobj and isinstance(p.off, int):
            # array members kept as objects of their own
            for start, size, sub in self.subobj[p.oid]:
                if start <= p.off < start + size:
                    return Ptr(sub, p.off - start)
        return p

    def idx64(self, v, it, mod):
        w = mod.resolve(it)[1]
        if isinstance(v, int):
            return to_signed(v, w)
        if isinstance(v, PtrInt):
            raise Unsupported('gep by pointer')
        if w < 64:
            return z3.SignExt(64 - w, bv(v, w))
        return v

    # ---- scalar operations ---------------------------------------------------
    def cast(self, op, v, t1, t2):
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'trunc':
            w = t2[1]
            if isinstance(v, int):
                return v & mask(w)
            if isinstance(v, PtrInt):
                raise Unsupported('truncated pointer')
            if w == 1:
                return z3.Extract(0, 0, v) == 1
            if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(v, z3.Z3_OP_SIGN_EXT):
                x = v.arg(0)
                if x.size() == w:
                    return x
            return norm(z3.Extract(w - 1, 0, v), w)
        if op == 'zext':
            w1, w2 = t1[1], t2[1]
            if isinstance(v, int):
                return v & mask(w1)
            if w1 == 1:
                return bv(v, w2)
            return z3.ZeroExt(w2 - w1, v)
        if op == 'sext':
            w1, w2 = t1[1], t2[1]
            if isinstance(v, int):
                return to_signed(v, w1) & mask(w2)
            if w1 == 1:
                return z3.If(v, z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2))
            return z3.SignExt(w2 - w1, v)
        if op == 'ptrtoint':
            if isinstance(v, FnPtr):
                raise Unsupported('function address')
            if v.oid == 0:
                x = v.off
                if t2[1] < 64:
                    return self.cast('trunc', x if not isinstance(x, int) else x & mask(64), ('i', 64), t2)
                return x & mask(64) if isinstance(x, int) else x
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int):
                return Ptr(0, to_signed(v, t1[1]))
            return Ptr(0, z3.ZeroExt(64 - t1[1], v) if t1[1] < 64 else v)
        raise Unsupported('cast ' + op)

    def binop(self, st, op, a, b, w, flags):
        if op == 'mul' and self.mulhook is not None and st is not None and z3.is_expr(a) and z3.is_expr(b):
            r = self.mulhook(self, st, a, b, w)
            if r is not None:
                return r
        if op in ('srem', 'urem') and self.remhook is not None and st is not None and z3.is_expr(a):
            r = self.remhook(self, st, op, a, b, w)
            if r is not None:
                return r
        if op in ('sdiv', 'udiv') and self.divhook is not None and st is not None and z3.is_expr(b):
            r = self.divhook(self, st, op, a, b, w)
            if r is not None:
                return r
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                if a.p.oid != b.p.oid:
                    raise Unsupported('difference of unrelated pointers')
                r = sub64(a.p.off, b.p.off)
                return r & mask(64) if isinstance(r, int) else r
            if op == 'add' and isinstance(a, PtrInt):
                return PtrInt(Ptr(a.p.oid, add64(a.p.off, b)))
            if op == 'sub' and isinstance(a, PtrInt):
                return PtrInt(Ptr(a.p.oid, sub64(a.p.off, b)))
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            raise Unsupported('binop on pointer')
        if isinstance(a, int) and isinstance(b, int):
            m = mask(w)
            sa, sb = to_signed(a, w), to_signed(b, w)
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b if b < w else 0
            elif op == 'lshr': r = (a & m) >> b
            elif op == 'ashr': r = sa >> b
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.oblige(st, False, 'arithmetic', 'division by zero')
                    raise Abort()
                if op == 'udiv': r = a // b
                elif op == 'urem': r = a % b
                else:
                    q = abs(sa) // abs(sb)
                    if (sa < 0) != (sb < 0):
                        q = -q
                    r = q if op == 'sdiv' else sa - q * sb
            else:
                raise Unsupported(op)
            if st is not None and self.check_overflow and 'nsw' in flags:
                if op in ('add', 'sub', 'mul'):
                    rr = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[op]
                    if to_signed(rr, w) != rr:
                        self.oblige(st, False, 'arithmetic', 'signed overflow in ' + op)
            return r & m
        if w == 1:
            x, y = boolv(a), boolv(b)
            if op == 'and': return z3.And(x, y)
            if op == 'or': return z3.Or(x, y)
            if op in ('xor', 'add', 'sub'): return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        if st is not None and self.check_overflow and 'nsw' in flags and op in ('add', 'sub', 'mul'):
            x, y = bv(a, w), bv(b, w)
            if op == 'add':
                c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                if isinstance(b, int) or isinstance(a, int):
                    k = to_signed(b if isinstance(b, int) else a, w)
                    e = x if isinstance(b, int) else y
                    if k == 0:
                        c = True
                    else:
                        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                        import math
                        if k > 0:
                            c = z3.And(e >= -((-lo) // k), e <= hi // k)
                        elif k == -1:
                            c = e != z3.BitVecVal(lo & mask(w), w)
                        else:
                            c = z3.And(e <= (-lo) // (-k), e >= -(hi // (-k)))
                else:
                    c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.oblige(st, c, 'arithmetic', 'no signed overflow in ' + op)
        if w == 64 and op in ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv'):
            if op == 'add': return wrap64(add64(a, b))
            if op == 'sub': return wrap64(sub64(a, b))
            if op == 'mul' and isinstance(b, int): return wrap64(mul64(a, to_signed(b, 64)))
            if op == 'mul' and isinstance(a, int): return wrap64(mul64(b, to_signed(a, 64)))
            if op == 'shl' and isinstance(b, int) and b < 64: return wrap64(mul64(a, 1 << b))
            if op in ('sdiv', 'udiv') and isinstance(b, int) and b != 0 and 'exact' in flags:
                r = divmod_lin(a, to_signed(b, 64))
                if r is not None and r[1] == 0:
                    # exact division of k*x by k: equal to x unless k*x wrapped; pointer
                    # differences inside one object do not wrap
                    return wrap64(r[0])
        x, y = bv(a, w), bv(b, w)
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op == 'shl': r = x << y
        elif op == 'lshr': r = z3.LShR(x, y)
        elif op == 'ashr': r = x >> y
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isinstance(b, int):
                if b == 0:
                    self.oblige(st, False, 'arithmetic', 'division by zero')
                    raise Abort()
            else:
                self.oblige(st, y != 0, 'arithmetic', 'divisor non-zero')
            if self.divfacts is not None and st is not None and isinstance(b, int) and 0 < b < (1 << (w - 1)):
                r = self.div_by_const(st, op, x, b, w)
                if r is not None:
                    return r
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)
        else:
            raise Unsupported(op)
        return norm(r, w)

    def div_by_const(self, st, op, x, b, w):
        """quotient and remainder of x by the constant b as new names, with
        x = q*b + r over the integers (stated without wrap-around), r < b"""
        x = z3.simplify(x)
        key = (x.get_id(), b)
        hit = self.divfacts.get(key)
        if hit is None:
            if op[0] == 's' and not self.must(st, x >= 0):
                return None
            rb = (b - 1).bit_length() or 1
            mx = self.divmax.get(x.get_id(), (None, mask(w)))[1]
            qmax = mx // b
            n = len(self.divlog)
            q, r = z3.BitVec('quot!%d' % n, w), z3.BitVec('rem!%d' % n, rb)
            rr = z3.ZeroExt(w - rb, r)
            ww = w + 8
            fact = z3.ZeroExt(8, x) == z3.ZeroExt(8, q) * z3.BitVecVal(b, ww) + z3.ZeroExt(8, rr)
            hit = (x, q, rr, r, z3.And(fact, z3.ULT(rr, z3.BitVecVal(b, w)), z3.ULE(q, z3.BitVecVal(qmax, w))), b)
            self.divfacts[key] = hit
            self.divmax[q.get_id()] = (q, qmax)
            self.divlog.append(hit)
        elif op[0] == 's' and not self.must(st, x >= 0):
            return None
        # x = q*b + r, 0 <= r < b and q <= max(x)/b defines q and r: these facts are
        # the defining property of unsigned division and need no proof
        if st.model is not None:
            try:
                xv = st.model.eval(x, model_completion=True).as_long()
                st.model.update_value(hit[1], z3.BitVecVal(xv // b, w))
                st.model.update_value(hit[3], z3.BitVecVal(xv % b, hit[3].size()))
            except Exception:
                st.model = None
        st.assume(hit[4])
        return norm(hit[1] if op[1:] == 'div' else hit[2], w)

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                e = a.fn == b.fn
            else:
                e = False
            return int(e == (pred == 'eq'))
        if isinstance(a, PtrInt):
            a = a.p
            if not isinstance(b, (Ptr, PtrInt)):
                b = Ptr(0, b)
        if isinstance(b, PtrInt):
            b = b.p
            if not isinstance(a, Ptr):
                a = Ptr(0, a)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                raise Unsupported('pointer/int comparison')
            if a.oid != b.oid and (a.oid == 0 and is_sym(a.off) and b.oid in self.base_of or b.oid == 0 and is_sym(b.off) and a.oid in self.base_of):
                a, b = (Ptr(0, add64(self.base_of[x.oid], x.off)) if x.oid else x for x in (a, b))
            if a.oid != b.oid:
                if pred == 'eq': return 0
                if pred == 'ne': return 1
                raise Unsupported('ordering of unrelated pointers')
            a, b = a.off, b.off
            w = 64
            if pred in ('eq', 'ne'):
                e = eq64(a, b)
                if isinstance(e, bool):
                    return int(e == (pred == 'eq'))
                return e if pred == 'eq' else z3.Not(e)
            # same object: compare offsets as signed
            pred = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
            if isinstance(a, int): a &= mask(64)
            if isinstance(b, int): b &= mask(64)
        else:
            w = ty[1]
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = to_signed(a, w), to_signed(b, w)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred])
        if w == 1:
            x, y = boolv(a), boolv(b)
            if pred == 'eq': return x == y
            if pred == 'ne': return x != y
            raise Unsupported('i1 cmp')
        # (zext b) != 0  ->  b
        if isinstance(b, int) and b == 0 and pred in ('eq', 'ne') and z3.is_app_of(a, z3.Z3_OP_ITE) and \
                isinstance(a.arg(1), z3.BitVecNumRef) and isinstance(a.arg(2), z3.BitVecNumRef) and \
                a.arg(1).as_long() == 1 and a.arg(2).as_long() == 0:
            c = a.arg(0)
            return c if pred == 'ne' else z3.Not(c)
        x, y = bv(a, w), bv(b, w)
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()

    # ---- execution -----------------------------------------------------------
    def val(self, regs, v, ty, mod):
        if v[0] == 'reg':
            return regs[v[1]]
        return self.const(v, ty, mod)

    def resolve_fn(self, name, mod):
        f = mod.funcs.get(name)
        if f is None and name in mod.globals and mod.global_def(name)[0] == 'alias':
            return self.resolve_fn(mod.global_def(name)[2], mod)
        if f is None:
            f = self.symtab.get(name)
        if f is None:
            for m in self.mods:
                if name in m.globals and m.globals[name].find('alias') >= 0:
                    t = m.global_def(name)
                    if t[0] == 'alias':
                        return self.resolve_fn(t[2], m)
        return f

    def call(self, st, name, args, mod, instr=None):
        """-> [(state, Ret|Throw|NoReturn)]"""
        dn = self.dem.get(name, name.lstrip('@'))
        for r, h, label in self.contracts:
            if r.search(dn):
                self.contracts_used.add(label)
                return self.outs(st, h(self, st, args, CallInfo(name, dn, mod, instr)))
        h = self.hcache.get(dn)
        if h is None:
            for r, hh, label in self.handlers:
                if r.search(dn):
                    h = (hh, label)
                    break
            else:
                h = ()
            self.hcache[dn] = h
        if h:
            if h[1]:
                self.trusted_used.add(h[1] if h[1] is not True else short(dn))
            return self.outs(st, h[0](self, st, args, CallInfo(name, dn, mod, instr)))
        f = self.resolve_fn(name, mod)
        if f is None:
            raise Unsupported('no contract for external function %s' % dn)
        return self.exec_fn(st, f, args)

    def outs(self, st, r):
        if isinstance(r, Outs):
            return r.lst
        if isinstance(r, (Ret, Throw, NoReturn)):
            return [(st, r)]
        return [(st, Ret(r))]

    def exec_fn(self, st, f, args):
        if self.depth > 60:
            raise Unsupported('recursion too deep at ' + f.name)
        dn = short(self.dem.get(f.name, f.name))
        self.inlined.add(dn)
        if not self.curfn and dn not in self.targets:
            self.targets.append(dn)
        self.curfn.append(dn)
        saveloc = self.loc
        self.depth += 1
        try:
            regs = {}
            if len(args) < len(f.params):
                raise Unsupported('argument count in call of ' + dn)
            for (ty, nm, att), v in zip(f.params, args):
                regs[nm] = v
            regs['%va'] = args[len(f.params):]
            f.blocks
            mem0 = st.mem
            ghost0 = st.ghost
            pc0 = st.pc
            base = dict(st.mem)
            allocs = []
            regs['%allocs'] = allocs
            outs, exits, backs = self.run(f, [(f.entry, None, st, regs)], None, None)
            res = []
            for s, o in outs:
                for a in allocs:
                    s.mem.pop(a, None)
                res.append((s, o))
            if self.depth == 1 and not self.quiet:
                r0 = 'unsat'
                for s, o in res:
                    if not isinstance(o, NoReturn):
                        r0, _ = self.solver.check(list(s.pc))
                        if r0 != 'unsat':
                            break
                self.oblige(State(), r0 != 'unsat', 'vacuity', 'the precondition is satisfiable and the function returns')
            if self.merge and len(res) > 1 and (self.merge != 'leaf' or (self.depth > 1 and not f.loops)):
                rt = f.mod.resolve(f.rettype)
                res = self.merge_outs(res, base, ghost0, pc0, rt[1] if rt[0] == 'i' else None)
            return res
        finally:
            self.depth -= 1
            self.curfn.pop()
            self.loc = saveloc

    def merge_outs(self, res, base, ghost0, pc0, retw):
        groups = {}
        order = []
        n0 = len(pc0)
        for s, o in res:
            if not isinstance(o, Ret) or s.pc[:n0] != pc0 or not (o.v is None or isinstance(o.v, int) or is_sym(o.v)):
                order.append(('x', (s, o)))
                continue
            key = (frozenset((k, id(v)) for k, v in s.mem.items()), tuple(sorted((k, ghost_id(v)) for k, v in s.ghost.items())))
            if key not in groups:
                groups[key] = []
                order.append(('g', key))
            groups[key].append((s, o))
        out = []
        for k, v in order:
            if k == 'x':
                out.append(v)
                continue
            g = groups[v]
            if len(g) == 1:
                out.append(g[0])
                continue
            conds = [z3.And(*s.pc[n0:]) if len(s.pc) > n0 else z3.BoolVal(True) for s, o in g]
            s0 = g[0][0]
            rv = None
            vals = [o.v for s, o in g]
            if vals[0] is None:
                rv = None
            else:
                w = None
                for x in vals:
                    if isinstance(x, z3.BitVecRef):
                        w = x.size()
                    elif isinstance(x, z3.BoolRef):
                        w = 1
                if all(isinstance(x, int) for x in vals) and len(set(vals)) == 1:
                    rv = vals[0]
                else:
                    if w is None:
                        w = retw
                    if w is None:
                        out.extend(g)
                        continue
                    rv = vals[-1]
                    for c, x in zip(reversed(conds[:-1]), reversed(vals[:-1])):
                        rv = ite(c, x, rv, w)
            s = s0.copy()
            s.pc = pc0
            s.model = None
            c = z3.simplify(z3.Or(*conds))
            if not z3.is_true(c):
                s.pc = pc0 + (c,)
            for ss, _ in g:
                if ss.model is not None:
                    s.model = ss.model
                    break
            out.append((s, Ret(rv)))
        return out

    def run(self, f, items, region, header):
        """executes from items until outcomes; region: stay inside these blocks
        -> outcomes, exits[(block,prev,st,regs)], backs[(st,regs)]"""
        outs = []
        exits = []
        backs = []
        work = list(items)
        first = True
        loops = f.loops
        pending = {}
        while work or pending:
            if not work:
                # all paths that can reach a loop entry are in: take the first loop in
                # reverse postorder, join its entry states, and cut it by its invariant
                h = min(pending, key=lambda b: f.rpo.get(b, 0))
                ents = pending.pop(h)
                spec = self.loop_spec(f, h)
                for prev, st, regs in self.join_entries(ents, f.live_in(h)):
                    o2, e2 = self.handle_loop(f, h, prev, st, regs, spec)
                    outs.extend(o2)
                    for it in reversed(e2):
                        if region is not None and it[0] == header:
                            backs.append((it[2], it[3]))
                        elif region is not None and it[0] not in region:
                            exits.append(it)
                        else:
                            work.append(it)
                continue
            bname, prev, st, regs = work.pop()
            if region is not None and not first:
                if bname == header:
                    backs.append((st, regs))
                    continue
                if bname not in region:
                    exits.append((bname, prev, st, regs))
                    continue
            if bname in loops and not (first and bname == header):
                entering = prev is None or prev not in loops[bname]
                spec = self.loop_spec(f, bname)
                if spec is not None and entering:
                    pending.setdefault(bname, []).append((prev, st, regs))
                    first = False
                    continue
                if spec is None:
                    if entering:
                        regs['%n' + bname] = 0
                    else:
                        regs['%n' + bname] = regs.get('%n' + bname, 0) + 1
                        if regs['%n' + bname] > self.unroll:
                            raise Unsupported('loop in %s needs an invariant' % self.curfn[-1])
            first = False
            try:
                self.run_block(f, bname, prev, st, regs, work, outs)
            except Abort:
                pass
        return outs, exits, backs

    # -- joining states
    def join_entries(self, ents, live=()):
        groups = []
        self.join_live = {regs[r].oid for prev, st, regs in ents for r in live if isinstance(regs.get(r), Ptr)}
        for prev, st, regs in ents:
            for g in groups:
                if not self.join_loops:
                    continue
                m = self.join2(g[1], g[2], st, regs)
                if m is not None:
                    g[1], g[2] = m
                    break
            else:
                groups.append([prev, st, regs])
        return [tuple(g) for g in groups]

    def join2(self, a, ra, b, rb):
        """one state standing for a or b, told apart by a fresh selector; None when
        their memories differ in a way that has no common form"""
        n = 0
        m = min(len(a.pc), len(b.pc))
        while n < m and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])):
            n += 1
        sel = z3.Bool(fresh_name('join'))
        a, b = a.copy(), b.copy()
        s = State()
        s.pc = a.pc[:n]
        da = z3.And(*a.pc[n:]) if len(a.pc) > n else z3.BoolVal(True)
        db = z3.And(*b.pc[n:]) if len(b.pc) > n else z3.BoolVal(True)
        try:
            for k in set(a.ghost) | set(b.ghost):
                if k not in a.ghost or k not in b.ghost:
                    if k.startswith('fmt:') or k.startswith('%'):
                        continue
                    return None
                x, y = a.ghost[k], b.ghost[k]
                if x is y or same(x, y):
                    s.ghost[k] = x
                elif is_sym(x) and is_sym(y) and x.sort() == y.sort():
                    s.ghost[k] = z3.If(sel, x, y)
                elif is_sym(x) and isinstance(y, int) or is_sym(y) and isinstance(x, int):
                    t = x if is_sym(x) else y
                    if z3.is_bool(t):
                        s.ghost[k] = z3.If(sel, boolv(x), boolv(y))
                    else:
                        s.ghost[k] = z3.If(sel, bv(x, t.size()), bv(y, t.size()))
                elif k.startswith('%'):
                    continue
                else:
                    return None
            for k in set(a.mem) | set(b.mem):
                if k not in a.mem or k not in b.mem:
                    if k in self.oid_global:
                        if k not in a.mem:
                            self.init_global(a, k)
                        else:
                            self.init_global(b, k)
                    else:
                        continue
                x, y = a.mem[k], b.mem[k]
                s.mem[k] = x if x is y else self.join_obj(a, b, s, k, sel)
            regs = {}
            for k in ra:
                if k in rb:
                    x, y = ra[k], rb[k]
                    if x is y or same(x, y):
                        regs[k] = x
                    elif k == '%allocs':
                        regs[k] = x
                    elif k.startswith('%n') and isinstance(x, int) and isinstance(y, int):
                        regs[k] = max(x, y)
                    elif is_sym(x) and is_sym(y) and x.sort() == y.sort():
                        regs[k] = z3.If(sel, x, y)
                    elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.oid == y.oid:
                        regs[k] = Ptr(x.oid, ite(sel, x.off, y.off, 64))
        except NoJoin:
            return None
        s.pc = s.pc + (z3.If(sel, da, db),)
        return s, regs

    def join_obj(self, a, b, s, k, sel):
        x, y = a.mem[k], b.mem[k]
        if x.kind != y.kind or x.alive != y.alive or x.ro != y.ro:
            raise NoJoin()
        if x.kind == 'arr':
            if x.stride != y.stride or set(x.fields) != set(y.fields):
                raise NoJoin()
            o = x.clone()
            o.count = ite(sel, x.count, y.count, 64) if not same(x.count, y.count) else x.count
            for f, (w, fa) in x.fields.items():
                fb = y.fields[f][1]
                o.fields[f] = (w, fa if fa is fb else FArr(8 * w, 'ite', (sel, fa, fb)))
            return o
        if x.fills != y.fills or x.size != y.size:
            raise NoJoin()
        o = x.clone()
        local = x.name.startswith('%') and k not in getattr(self, 'join_live', ())
        for off in sorted(set(x.cells) | set(y.cells)):
            ca, cb = x.cells.get(off), y.cells.get(off)
            if ca is not None and cb is not None and (ca is cb or ca[0] == cb[0] and same(ca[1], cb[1])):
                continue
            c = ca or cb
            if ca is None or cb is None:
                other = y if cb is None else x
                st = b if cb is None else a
                if any(p < off + c[0] and off < p + q[0] for p, q in other.cells.items()):
                    raise NoJoin()
                if isinstance(c[1], (Seq, Ptr, PtrInt, FnPtr, Agg)):
                    if local:
                        o.cells.pop(off, None)
                        continue
                    raise NoJoin()
                v = self.cell_load(st, k, off, c[0], False)
                if ca is None:
                    ca = (c[0], v)
                else:
                    cb = (c[0], v)
            if ca[0] != cb[0]:
                raise NoJoin()
            va, vb = ca[1], cb[1]
            if isinstance(va, Seq) and isinstance(vb, Seq):
                if va.esz != vb.esz or va.isstr != vb.isstr:
                    raise NoJoin()
                da, db = a.mem.get(va.oid), b.mem.get(vb.oid)
                if da is None or db is None or set(da.fields) != set(db.fields):
                    raise NoJoin()
                ln = va.len if same(va.len, vb.len) else ite(sel, va.len, vb.len, 64)
                p = self.new_arr(s, da.stride, {f: w for f, (w, _) in da.fields.items()}, add64(ln, 1) if va.isstr else ln, da.name,
                                 {f: (fa if fa is db.fields[f][1] else FArr(8 * w, 'ite', (sel, fa, db.fields[f][1]))) for f, (w, fa) in da.fields.items()})
                o.cells[off] = (ca[0], Seq(va.esz, ln, p.oid, va.isstr))
                continue
            if isinstance(va, Ptr) and isinstance(vb, Ptr) and va.oid == vb.oid:
                o.cells[off] = (ca[0], Ptr(va.oid, ite(sel, va.off, vb.off, 64)))
                continue
            if (isinstance(va, int) or is_sym(va)) and (isinstance(vb, int) or is_sym(vb)):
                o.cells[off] = (ca[0], ite(sel, va, vb, 8 * ca[0]))
                continue
            if local:
                o.cells.pop(off, None)
                continue
            raise NoJoin()
        return o

    def loop_spec(self, f, h):
        key = (f.name, h)
        if key in self.loop_assign:
            return self.loop_assign[key]
        dn = self.dem.get(f.name, f.name)
        got = None
        for sp in self.loops:
            if sp.used and not getattr(sp, 'multi', False):
                continue
            if sp.fn is not None and not re.search(sp.fn, dn):
                continue
            if getattr(sp, 'pred', None) and not sp.pred(self, f, h):
                continue
            got = sp
            break
        if got:
            got.used = True
        self.loop_assign[key] = got
        return got

    # -- loops with invariants
    def handle_loop(self, f, h, prev, st, regs, spec):
        body = f.loops[h]
        binding = {}
        for turn in range(3):
            M, Mg, binding = self.loop_frame(f, h, prev, st, regs, spec, body, binding)
            b2 = self.choose_binding(f, st, regs, spec, M, binding)
            if b2 == binding:
                break
            binding = b2
        # real run
        ctx0 = LoopCtx(self, f, st, regs, binding, st, self.mod_oids(M))
        self.check_inv(ctx0, spec, 'established')
        hs, hregs = self.havoc(f, st, regs, M, Mg, spec)
        self.assume_inv(f, hs, hregs, spec, st, M, binding)
        r0, m0 = self.solver.check(list(hs.pc))
        if not self.quiet:
            self.oblige(State(), r0 != 'unsat', 'vacuity', '%s: the loop head is reachable under its invariant' % spec.name)
        head = hs.copy()
        dec0 = None
        hctx = LoopCtx(self, f, head, hregs, binding, st, self.mod_oids(M))
        if spec.decreases:
            dec0 = spec.decreases(hctx)
        o, e, b = self.run(f, [(h, prev, hs, hregs)], body, h)
        for bs, br in b:
            d, g = self.diff(head, bs)
            if not (d <= M and g <= Mg):
                self.oblige(bs, False, 'loop frame', '%s: changes outside the inferred frame' % spec.name)
            ctx = LoopCtx(self, f, bs, br, binding, st, self.mod_oids(M))
            ctx.head = hctx
            self.check_inv(ctx, spec, 'preserved')
            if spec.decreases:
                d1 = spec.decreases(ctx)
                w = d1.size() if is_sym(d1) else dec0.size() if is_sym(dec0) else 64
                self.oblige(bs, z3.And(bv(d1, w) < bv(dec0, w), bv(dec0, w) >= 0), 'loop variant', spec.name + ': decreases')
        return o, e

    def loop_frame(self, f, h, prev, st, regs, spec, body, binding):
        """what the loop changes: the least frame under which its body changes nothing else"""
        M = set()
        Mg = set()
        self.quiet += 1
        attempts = 0
        try:
            while True:
                attempts += 1
                if attempts > 24:
                    raise Unsupported('loop frame inference does not converge (%s)' % spec.name)
                hs, hregs = self.havoc(f, st, regs, M, Mg, spec)
                if attempts > 1:
                    try:
                        self.assume_inv(f, hs, hregs, spec, st, M, binding)
                    except Missing as e:
                        binding = self.bind_missing(f, hs, hregs, spec, M, binding, str(e.args[0]))
                        continue
                head = hs.copy()
                o, e, b = self.run(f, [(h, prev, hs, hregs)], body, h)
                m2, g2 = set(), set()
                for bs, br in b:
                    d, g = self.diff(head, bs)
                    m2 |= d
                    g2 |= g
                if m2 <= M and g2 <= Mg:
                    break
                M |= m2
                Mg |= g2
        finally:
            self.quiet -= 1
        return M, Mg, binding

    def mod_oids(self, M):
        return {m[0] for m in M}

    def check_inv(self, ctx, spec, what):
        for nm, c in spec.inv(ctx):
            self.oblige(ctx.st, c, 'loop invariant ' + what, '%s: %s' % (spec.name, nm))

    def assume_inv(self, f, st, regs, spec, entry, M, binding):
        ctx = LoopCtx(self, f, st, regs, binding, entry, self.mod_oids(M))
        for nm, c in spec.inv(ctx):
            if c is False:
                c = z3.BoolVal(False)
            st.assume(c)
        if spec.on_head:
            spec.on_head(ctx)
        st.model = None

    def bind_missing(self, f, st, regs, spec, M, binding, name):
        """the invariant names a local that does not exist (renamed): any
        loop-modified local of its type that is not bound yet"""
        c = self.bind_candidates(f, st, regs, spec, M, binding, name)
        if len(c) < 1:
            raise Unsupported('loop variable %r of %s not found' % (name, spec.name))
        b = dict(binding)
        b[name] = c[0]
        self.guessed = True
        return b

    def bind_candidates(self, f, st, regs, spec, M, binding, name):
        want = spec.vars.get(name)
        taken = set(binding.values())
        for v in spec.vars:
            if v not in binding:
                r = self.find_local(f, regs, st, v, self.mod_oids(M))
                if r:
                    taken.add(r)
        c, c2 = [], []
        for r, p in regs.items():
            if isinstance(p, Ptr) and p.oid in st.mem and st.mem[p.oid].name == r and r not in taken:
                o = st.mem[p.oid]
                if o.elem is not None and (want is None or o.elem == want):
                    (c if p.oid in self.mod_oids(M) else c2).append(r)
        return c + c2

    def choose_binding(self, f, st, regs, spec, M, binding):
        """the renamed locals of a loop: the first choice under which the
        invariant is established.  No choice: the loop is not decided."""
        names = list(binding)
        if not names:
            try:
                spec.inv(LoopCtx(self, f, st, regs, {}, st, self.mod_oids(M)))
                return self.stale_binding(f, st, regs, spec, M)
            except Missing as e:
                names = [str(e.args[0])]
        self.guessed = True

        def trial(b, todo, depth):
            if depth > 4:
                return None
            if todo:
                for r in self.bind_candidates(f, st, regs, spec, M, b, todo[0]):
                    b2 = dict(b)
                    b2[todo[0]] = r
                    x = trial(b2, todo[1:], depth + 1)
                    if x is not None:
                        return x
                return None
            try:
                cs = spec.inv(LoopCtx(self, f, st, regs, b, st, self.mod_oids(M)))
            except Missing as e:
                if str(e.args[0]) in b:
                    return None
                return trial(b, [str(e.args[0])], depth + 1)
            except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception):
                return None
            return b if all(self.must(st, c) for nm, c in cs) else None
        b = trial({}, names, 0)
        if b is None:
            raise Unsupported('loop variable %s of %s not found' % (', '.join(names), spec.name))
        return b

    def stale_binding(self, f, st, regs, spec, M):
        """a variable of the invariant that the loop does not change, while it
        changes another one that starts out in the same way: the code was
        rewritten over that one"""
        mods = self.mod_oids(M)
        named = {v: self.find_local(f, regs, st, v, mods) for v in spec.vars}
        for v, r in named.items():
            if r is None or regs[r].oid in mods:
                continue
            for r2 in self.bind_candidates(f, st, regs, spec, M, {}, v):
                if regs[r2].oid not in mods or not st.mem[regs[r2].oid].cells:
                    continue
                if self.must_same(st, regs[r], regs[r2]):
                    self.guessed = True
                    return {v: r2}
        return {}

    def must_same(self, st, p, q):
        try:
            o = st.mem[p.oid]
            a, b = self.load_raw(st, p, o.size, o.elem), self.load_raw(st, q, o.size, o.elem)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid and self.must(st, bv(a.off, 64) == bv(b.off, 64))
            return self.must(st, bv(a, 8 * o.size) == bv(b, 8 * o.size))
        except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception):
            return False

    def find_local(self, f, regs, st, name, modified):
        c = []
        for r in regs:
            p = regs[r]
            if isinstance(p, Ptr) and p.oid in st.mem and st.mem[p.oid].name == r:
                b = r[1:].strip('"')
                base = re.sub(r'(\.addr)?\d*$', '', b)
                if b == name or b == name + '.addr':
                    c.append((0, r))
                elif base == name:
                    c.append((1, r))
        if not c:
            return None
        if len(c) > 1 and modified:
            c2 = [x for x in c if regs[x[1]].oid in modified]
            if c2:
                c = c2
        c.sort()
        return c[0][1]

    def havoc(self, f, st, regs, M, Mg, spec):
        s = st.copy()
        for m in sorted(M, key=repr):
            oid, off, n = m
            o = s.mem.get(oid)
            if o is None:
                continue
            if off is None:
                w = o.clone()
                if w.kind == 'arr':
                    for ff, (fw, a) in list(w.fields.items()):
                        w.fields[ff] = (fw, FArr.base(8 * fw, clean(o.name) + '.%d' % ff))
                else:
                    w2 = self.to_arr(s, oid)
                    if w2 is None:
                        raise Unsupported('havoc of ' + o.name)
                    w = w2.clone()
                    for ff, (fw, a) in list(w.fields.items()):
                        w.fields[ff] = (fw, FArr.base(8 * fw, clean(o.name) + '.%d' % ff))
                s.mem[oid] = w
                continue
            if o.kind == 'arr':
                continue
            c = o.cells.get(off)
            if c is None or c[0] != n:
                # not initialised before the loop
                old = None
                if any(a <= off and off + n <= b for a, b, _ in o.fills):
                    old = 0
            else:
                old = c[1]
            key = (f.name, clean(o.name), off)
            if spec.havoc and spec.havoc(self, s, o, off, n, old) is not None:
                v = spec.havoc(self, s, o, off, n, old)
            elif isinstance(old, Seq):
                v = self.havoc_seq(s, old, clean(o.name))
            elif isinstance(old, Ptr) and old.oid != 0:
                stride = self.ptr_strides.get((oid, off), 1)
                k = fresh(clean(o.name) + '#', 64)
                v = Ptr(old.oid, add64(old.off, mul64(k, stride)))
            elif isinstance(old, Ptr):
                v = Ptr(0, fresh(clean(o.name) + '@', 64))
                if self.ptr_hints.get((oid, off)):
                    raise Unsupported('loop-carried pointer ' + o.name)
            elif old is None or isinstance(old, int) or is_sym(old):
                if (oid, off) in self.ptr_hints and old is None:
                    raise Unsupported('loop-carried pointer ' + o.name)
                v = fresh(clean(o.name) + '~', 8 * n)
            elif isinstance(old, PtrInt):
                raise Unsupported('havoc of pointer bits')
            else:
                raise Unsupported('havoc of %r' % (old,))
            w = s.mem[oid].clone()
            self.carve(w, off, n)
            w.cells[off] = (n, v)
            s.mem[oid] = w
        for g in sorted(Mg):
            old = s.ghost.get(g)
            if g in spec.ghost_havoc:
                s.ghost[g] = spec.ghost_havoc[g](self, s, old)
            elif is_sym(old):
                s.ghost[g] = z3.Const(fresh_name(g), old.sort())
            elif isinstance(old, bool):
                s.ghost[g] = z3.Bool(fresh_name(g))
            elif isinstance(old, int):
                s.ghost[g] = fresh(g, self.ghost_width.get(g, 64))
            else:
                raise Unsupported('ghost %s changes in loop %s' % (g, spec.name))
        s.model = None
        return s, dict(regs)

    subobj = {}
    ptr_strides = {}
    ptr_hints = {}
    ghost_width = {}

    def havoc_seq(self, s, old, name):
        do = s.mem[old.oid]
        ln = fresh(name + '.len', 64)
        s.assume(z3.ULE(ln, bv(1 << 40, 64)))
        cnt = add64(ln, 1) if old.isstr else ln
        np = self.new_arr(s, do.stride, {ff: w for ff, (w, a) in do.fields.items()}, cnt, name + '.data')
        s.mem.pop(old.oid, None)
        return Seq(old.esz, ln, np.oid, old.isstr)

    def diff(self, a, b):
        """what changed from a to b -> {(oid, off, n)}"""
        d = set()
        gone = set()
        for oid, o in a.mem.items():
            p = b.mem.get(oid)
            if p is o:
                continue
            if p is None:
                gone.add(oid)
                continue
            if o.kind != p.kind:
                d.add((oid, None, None))
                continue
            if o.alive != p.alive:
                gone.add(oid)
                continue
            if o.kind == 'arr':
                ch = False
                for ff in p.fields:
                    if p.fields[ff][1] is not o.fields[ff][1]:
                        ch = True
                if ch:
                    d.add((oid, None, None))
                continue
            if o.fills != p.fills:
                if p.fills[:len(o.fills)] == o.fills:
                    for x, y, _ in p.fills[len(o.fills):]:
                        k = x
                        while k < y:
                            n = 4 if k % 4 == 0 and k + 4 <= y else 1
                            if o.elem is not None and o.elem[0] == 'i':
                                n = o.size
                            d.add((oid, k, n))
                            k += n
                else:
                    raise Unsupported('loop changes fills of ' + o.name)
            for k, c in p.cells.items():
                oc = o.cells.get(k)
                if oc is c:
                    continue
                if oc is not None and oc[0] == c[0] and same(oc[1], c[1]):
                    continue
                if oc is None and not self.covered(o, k, c[0]):
                    # lazily materialised input, or first initialisation of a local
                    if o.lazy is not None and is_sym(c[1]) and z3.is_const(c[1]) and str(c[1]).startswith(clean(o.name) + '+'):
                        continue
                    if o.lazy is None and is_sym(c[1]) and z3.is_const(c[1]) and str(c[1]).startswith(clean(o.name) + '+'):
                        continue
                    if o.name.startswith('%'):
                        # a local that is written before it is read in every iteration need not be
                        # carried; carrying it (havoc) is always sound
                        if isinstance(c[1], Ptr):
                            self.ptr_hints[(oid, k)] = True
                            continue
                        if isinstance(c[1], (Seq, PtrInt, FnPtr, Agg)):
                            continue
                d.add((oid, k, c[0]))
                if isinstance(c[1], Ptr) and oc is not None and isinstance(oc[1], Ptr):
                    self.note_stride(oid, k, oc[1], c[1])
            for k, c in o.cells.items():
                if k not in p.cells and not self.has_cell(p, k, c[0]):
                    d.add((oid, k, c[0]))
        # containers: data objects that died because their Seq changed are covered by the Seq
        owned = set()
        for oid, o in a.mem.items():
            if o.kind == 'cells':
                for k, c in o.cells.items():
                    if isinstance(c[1], Seq):
                        owned.add(c[1].oid)
        for g in gone - owned:
            if a.mem[g].tag == 'heap' or True:
                raise Unsupported('loop frees %s' % a.mem[g].name)
        g = set()
        for k in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(k), b.ghost.get(k)
            if x is y or same(x, y):
                continue
            g.add(k)
        return d, g

    def covered(self, o, k, n):
        return self.has_cell(o, k, n)

    def note_stride(self, oid, k, p, q):
        if p.oid != q.oid or p.oid == 0:
            if p.oid == 0 and q.oid == 0:
                return
            raise Unsupported('loop-carried pointer to different objects')
        d = sub64(q.off, p.off)
        c, t = linear(d)
        import math
        g = abs(c)
        for _, kk in t.values():
            g = math.gcd(g, abs(to_signed(kk, 64)))
        old = self.ptr_strides.get((oid, k), 0)
        g = math.gcd(g, old)
        if g:
            self.ptr_strides[(oid, k)] = g

    # -- one basic block
    def run_block(self, f, bname, prev, st, regs, work, outs):
        mod = f.mod
        B = f.blocks[bname]
        # phis in parallel
        ins = B.ins
        i = 0
        if ins and ins[0].op == 'phi':
            new = {}
            while ins[i].op == 'phi':
                for v, lb in ins[i].a:
                    if lb == prev:
                        new[ins[i].res] = self.val(regs, v, ins[i].ty, mod)
                        break
                else:
                    raise Unsupported('phi')
                i += 1
            regs.update(new)
        self.cont(f, bname, i, prev, st, regs, work, outs)

    def cont(self, f, bname, i, prev, st, regs, work, outs):
        mod = f.mod
        ins = f.blocks[bname].ins
        n = len(ins)
        while i < n:
            I = ins[i]
            i += 1
            op = I.op
            if I.line:
                self.loc = I.line
            if op == 'load':
                regs[I.res] = self.load(st, self.val(regs, I.a[0], ('ptr',), mod), I.ty, mod)
            elif op == 'store':
                self.store(st, self.val(regs, I.a[1], ('ptr',), mod), self.val(regs, I.a[0], I.ty, mod), I.ty, mod)
            elif op == 'atomicrmw':
                o2, pv, vv = I.a
                ptr = self.val(regs, pv, ('ptr',), mod)
                v = self.val(regs, vv, I.ty, mod)
                h = self.fn_overrides.get('atomicrmw')
                if h:
                    h(self, st, o2, ptr, v)
                old = self.load(st, ptr, I.ty, mod)
                if o2 == 'xchg':
                    new = v
                elif o2 in ('add', 'sub', 'and', 'or', 'xor'):
                    new = self.binop(None, o2, old, v, I.ty[1], ())
                else:
                    raise Unsupported('atomicrmw ' + o2)
                self.store(st, ptr, new, I.ty, mod)
                regs[I.res] = old
            elif op == 'getelementptr':
                b = self.val(regs, I.a[1], ('ptr',), mod)
                regs[I.res] = self.gep(mod, I.a[0], b, [(t, self.val(regs, v, t, mod)) for t, v in I.a[2]])
            elif op == 'alloca':
                ty, cnt = I.a
                sz = mod.size(ty)
                if cnt is not None:
                    c = self.val(regs, cnt[1], cnt[0], mod)
                    if not isinstance(c, int):
                        raise Unsupported('vla')
                    sz *= c
                rt = mod.resolve(ty)
                o = Obj('cells', sz, I.res)
                if rt[0] == 'arr' and mod.resolve(rt[2])[0] == 'i':
                    o.elem = ('arr', rt[1], mod.resolve(rt[2]))
                elif rt[0] in ('i', 'ptr'):
                    o.elem = rt
                oid = self.add_obj(st, o)
                regs['%allocs'].append(oid)
                regs[I.res] = Ptr(oid, 0)
            elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                w = mod.resolve(I.ty)[1]
                regs[I.res] = self.binop(st, op, self.val(regs, I.a[0], I.ty, mod), self.val(regs, I.a[1], I.ty, mod), w, I.a[2])
            elif op == 'icmp':
                regs[I.res] = self.icmp(st, I.a[0], mod.resolve(I.a[1]), self.val(regs, I.a[2], I.a[1], mod), self.val(regs, I.a[3], I.a[1], mod))
            elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
                regs[I.res] = self.cast(op, self.val(regs, I.a[1], I.a[0], mod), mod.resolve(I.a[0]), mod.resolve(I.ty))
            elif op == 'select':
                c = self.val(regs, I.a[0], ('i', 1), mod)
                a = self.val(regs, I.a[1], I.ty, mod)
                b = self.val(regs, I.a[2], I.ty, mod)
                if isinstance(c, int):
                    regs[I.res] = a if c else b
                elif isinstance(a, (Ptr, FnPtr, PtrInt, Agg)) or isinstance(b, (Ptr, FnPtr, PtrInt, Agg)):
                    fk = self.fork(st, c)
                    if len(fk) == 1:
                        regs[I.res] = a if fk[0][1] else b
                    else:
                        for s, t in fk:
                            r2 = regs if s is st else dict(regs)
                            if s is st:
                                mine = t
                                continue
                            r2[I.res] = a if t else b
                            try:
                                self.cont(f, bname, i, prev, s, r2, work, outs)
                            except Abort:
                                pass
                        regs[I.res] = a if mine else b
                else:
                    regs[I.res] = ite(c, a, b, mod.resolve(I.ty)[1])
            elif op == 'freeze':
                regs[I.res] = self.val(regs, I.a[0], I.ty, mod)
            elif op == 'br':
                if len(I.a) == 1:
                    work.append((I.a[0], bname, st, regs))
                    return
                c = self.val(regs, I.a[0], ('i', 1), mod)
                fk = self.fork(st, c)
                for j, (s, t) in enumerate(fk):
                    work.append((I.a[1] if t else I.a[2], bname, s, regs if j == len(fk) - 1 else dict(regs)))
                return
            elif op == 'switch':
                v = self.val(regs, I.a[0], I.ty, mod)
                w = mod.resolve(I.ty)[1]
                if isinstance(v, int):
                    for cv, lb in I.a[2]:
                        if cv & mask(w) == v:
                            work.append((lb, bname, st, regs))
                            return
                    work.append((I.a[1], bname, st, regs))
                    return
                cur = st
                for cv, lb in I.a[2]:
                    fk = self.fork(cur, v == z3.BitVecVal(cv & mask(w), w))
                    cur = None
                    for s, t in fk:
                        if t:
                            work.append((lb, bname, s, dict(regs)))
                        else:
                            cur = s
                    if cur is None:
                        return
                work.append((I.a[1], bname, cur, dict(regs)))
                return
            elif op == 'ret':
                if I.a is None:
                    outs.append((st, Ret(None)))
                else:
                    outs.append((st, Ret(self.val(regs, I.a, I.ty, mod))))
                return
            elif op in ('call', 'invoke'):
                r = self.do_call(f, I, st, regs)
                if r is None:
                    if op == 'invoke':
                        work.append((I.a['normal'], bname, st, regs))
                        return
                    continue
                rets = []
                for s, o in r:
                    if isinstance(o, Ret):
                        rets.append((s, o))
                    elif isinstance(o, Throw):
                        if op == 'call':
                            outs.append((s, o))
                        else:
                            rg = dict(regs)
                            rg['%exc'] = o
                            work.append((I.a['unwind'], bname, s, rg))
                if op == 'invoke':
                    for s, o in rets:
                        rg = dict(regs)
                        if I.res is not None:
                            rg[I.res] = o.v
                        work.append((I.a['normal'], bname, s, rg))
                    return
                if not rets:
                    return
                for s, o in rets[1:]:
                    rg = dict(regs)
                    if I.res is not None:
                        rg[I.res] = o.v
                    try:
                        self.cont(f, bname, i, prev, s, rg, work, outs)
                    except Abort:
                        pass
                st = rets[0][0]
                if I.res is not None:
                    regs[I.res] = rets[0][1].v
            elif op == 'extractvalue':
                v = self.val(regs, I.a[0], I.ty, mod)
                for k in I.a[1]:
                    v = v.v[k]
                regs[I.res] = v
            elif op == 'insertvalue':
                v = self.val(regs, I.a[0], I.ty, mod)
                e = self.val(regs, I.a[2], I.a[1], mod)
                regs[I.res] = insert(v, e, I.a[3])
            elif op == 'landingpad':
                o = regs['%exc']
                cleanup, clauses = I.a
                sel = None
                for k, (ck, cv) in enumerate(clauses):
                    if ck != 'catch':
                        raise Unsupported('filter clause')
                    if cv[0] == 'null':
                        sel = self.ti_index(None)
                        break
                    if cv[0] == 'glob' and self.ti_match(o.ti, cv[1]):
                        sel = self.ti_index(cv[1])
                        break
                if sel is None:
                    if not cleanup:
                        outs.append((st, o))
                        return
                    sel = 0
                regs[I.res] = Agg([o.ptr, sel])
                st.ghost = dict(st.ghost)
                st.ghost['%exc'] = o
            elif op == 'resume':
                v = self.val(regs, I.a[0], I.ty, mod)
                o = st.ghost.get('%exc')
                outs.append((st, o))
                return
            elif op == 'unreachable':
                return
            else:
                raise Unsupported('instruction ' + I.text[:80])
        raise Unsupported('fell off block')

    def ti_index(self, n):
        return 1 if n is None else 2 + sorted(self.all_ti()).index(n)

    def all_ti(self):
        if self.ti_bases is None:
            self.ti_bases = {}
            for m in self.mods:
                for n in m.globals:
                    if n.startswith('@_ZTI') or n.startswith('@"_ZTI'):
                        t = m.globals[n]
                        bases = re.findall(r'ptr (@_ZTI[A-Za-z0-9_]+)', t)
                        self.ti_bases.setdefault(n, set()).update(b for b in bases if b != n)
        return self.ti_bases

    def ti_match(self, thrown, catch):
        b = self.all_ti()
        std = {'@_ZTISt9bad_alloc': {'@_ZTISt9exception'}, '@_ZTISt12length_error': {'@_ZTISt11logic_error'},
               '@_ZTISt11logic_error': {'@_ZTISt9exception'}, '@_ZTISt12out_of_range': {'@_ZTISt11logic_error'}}
        seen = set()
        wl = [thrown]
        while wl:
            x = wl.pop()
            if x == catch:
                return True
            if x in seen:
                continue
            seen.add(x)
            wl.extend(b.get(x, ()))
            wl.extend(std.get(x, ()))
        return False

    def do_call(self, f, I, st, regs):
        mod = f.mod
        cal = I.a['callee']
        if cal[0] == 'glob':
            name = cal[1]
            if name.startswith('@llvm.dbg.') or name.startswith('@llvm.lifetime'):
                return None
        else:
            v = self.val(regs, cal, ('ptr',), mod)
            if isinstance(v, FnPtr):
                name = v.fn
                mod = v.mod
            elif isinstance(v, Ptr) and ('fp', v.oid) in self.fn_overrides:
                name = self.fn_overrides[('fp', v.oid)]
            else:
                h = self.fn_overrides.get('indirect')
                if h is None:
                    raise Unsupported('indirect call')
                args = [self.val(regs, v2, t, f.mod) for t, v2, a in I.a['args']]
                return self.outs(st, h(self, st, v, args, I))
        args = [self.val(regs, v, t, f.mod) for t, v, a in I.a['args'] if t != ('metadata',)]
        rt = f.mod.resolve(I.ty) if I.ty else None
        byval = None
        for k, (t, v, a) in enumerate(I.a['args']):
            for x in a:
                if isinstance(x, tuple) and x[0] == 'byval':
                    raise Unsupported('byval')
        return self.call(st, name, args, mod if cal[0] != 'glob' else f.mod, I)


class NoJoin(Exception):
    pass


class CallInfo:
    __slots__ = ('name', 'dn', 'mod', 'instr')

    def __init__(self, name, dn, mod, instr):
        self.name, self.dn, self.mod, self.instr = name, dn, mod, instr


class Abort(Exception):
    """this path ends here (after a failed obligation)"""


def ghost_id(v):
    if is_sym(v):
        return ('z', v.get_id())
    if isinstance(v, (int, str, bool, type(None))):
        return ('c', repr(v))
    return ('i', id(v))


def same(a, b):
    if a is b:
        return True
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.oid == b.oid and same(a.off, b.off)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return a.oid == b.oid and same(a.len, b.len)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return False


def insert(v, e, idx):
    l = list(v.v)
    if len(idx) == 1:
        l[idx[0]] = e
    else:
        l[idx[0]] = insert(l[idx[0]], e, idx[1:])
    return Agg(l)


def wrap64(r):
    return r & mask(64) if isinstance(r, int) else r


def divmod_lin_any(off):
    c, t = linear(off)
    import math
    g = 0
    for _, k in t.values():
        g = math.gcd(g, abs(to_signed(k, 64)))
    if g == 0:
        return None
    return c, None, g


def clean(n):
    return (n or '').lstrip('%@').strip('"')


NORM = [
    (re.compile(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'), 'string'),
    (re.compile(r'std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >'), 'wstring'),
    (re.compile(r'\[abi:\w+\]'), ''),
]
VEC = re.compile(r'std::vector<([^<>]*(?:<[^<>]*>)?[^<>]*), std::allocator<\1 ?> >')


def normname(s):
    for r, t in NORM:
        s = r.sub(t, s)
    for _ in range(4):
        s2 = VEC.sub(r'vector<\1>', s)
        if s2 == s:
            break
        s = s2
    return s


def short(dn):
    """function name without its parameter list and return type"""
    d = 0
    for i, c in enumerate(dn):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif c == '(' and d == 0 and i > 0:
            if dn[i:].startswith('(anonymous namespace)') or dn[:i].endswith('operator'):
                continue
            return dn[:i]
    return dn
