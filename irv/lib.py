"""Driver: compile /repo to LLVM IR, run verification units, collect results."""
import os, sys, subprocess, tempfile, time, json, multiprocessing, traceback, shutil, re, hashlib, signal
import z3
from llparse import Module, demangle
from sym import *
import engine, std
from engine import *

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FLAGS = ['--target=x86_64-w64-mingw32', '-std=c++11', '-O0', '-g', '-Xclang', '-disable-O0-optnone',
         '-fno-discard-value-names', '-w', '-DUNICODE', '-D_UNICODE', '-D_WIN32_WINNT=0x0501',
         '-fno-strict-aliasing', '-fno-threadsafe-statics', '-fstandalone-debug']


def flags_for(src):
    f = list(FLAGS)
    if src.startswith('src/agent/') or src.startswith('src/shared/'):
        f.append('-DWINPTY_AGENT_ASSERT')
    if src.startswith('src/libwinpty/'):
        f.append('-DCOMPILING_WINPTY_DLL')
    f += ['-I' + os.path.join(REPO, 'src/include')]
    return f


TUS = {}


class Ctx:
    """one property run: scratch directory, compiled modules"""

    def __init__(self, tier='quick'):
        self.tier = tier
        self.dir = tempfile.mkdtemp(prefix='vchk.')
        self.mods = {}
        self.gen()

    def gen(self):
        # GenVersion.h is made by the Makefile; make our own copy
        d = os.path.join(self.dir, 'gen')
        os.makedirs(d, exist_ok=True)
        v = open(os.path.join(REPO, 'VERSION.txt')).read().strip()
        open(os.path.join(d, 'GenVersion.h'), 'w').write(
            'const char GenVersion_Version[] = "%s";\nconst char GenVersion_Commit[] = "none";\n' % v)
        self.gendir = d

    def compile(self, srcs):
        """srcs: paths relative to /repo, or (label, path, flags); compiled in parallel"""
        procs = []
        for s in srcs:
            lab = s
            path, fl = TUS[s] if s in TUS else (os.path.join(REPO, s), None)
            if lab in self.mods:
                continue
            out = os.path.join(self.dir, re.sub(r'\W', '_', lab) + '.ll')
            cmd = ['clang++'] + (fl if fl is not None else flags_for(lab)) + ['-I' + self.gendir, '-S', '-emit-llvm', path, '-o', out]
            procs.append((lab, out, subprocess.Popen(cmd, stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, text=True)))
        err = None
        for lab, out, p in procs:
            _, e = p.communicate()
            if p.returncode:
                err = (lab, e[-1500:])
                self.mods[lab] = None
                continue
            self.mods[lab] = out
        return err

    def module(self, lab):
        m = self.mods.get(lab)
        if m is None:
            self.compile([lab])
            m = self.mods.get(lab)
            if m is None:
                raise Unsupported('%s does not compile for verification' % (lab,))
        if isinstance(m, str):
            m = Module(m, lab)
            self.mods[lab] = m
        return m

    def engine(self, srcs, **kw):
        E = Engine([self.module(s) for s in srcs], Solver(20000 if self.tier == 'quick' else 120000))
        E.ctx = self
        E.ptr_strides = {}
        E.subobj = {}
        E.ptr_hints = {}
        E.ghost_width = {}
        std.install(E)
        return E

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def handler(E, pat, fn, label=None):
    E.handlers.insert(0, (re.compile(pat), fn, label or ('assumed contract: ' + pat)))
    E.hcache.clear()


def contract(E, pat, fn, label):
    r = re.compile(pat)
    if not any(r.search(d) for d in E.dem.values()):
        raise Unsupported('no function matches the contract %s' % pat)
    E.contracts.insert(0, (re.compile(pat), fn, label))


def layout(E, cls):
    for m in E.mods:
        l = m.layout(cls)
        if l:
            return l
    raise Unsupported('class %s not found' % cls)


def class_size(E, cls):
    for m in E.mods:
        n = m.class_size(cls)
        if n:
            return n
    raise Unsupported('class %s not found' % cls)


class View:
    """named access to an object of a class: v.get(st,'m_x')"""

    def __init__(self, E, cls, ptr):
        self.E, self.cls, self.ptr = E, cls, ptr
        self.lay = layout(E, cls)

    def at(self, name):
        if name not in self.lay:
            raise Unsupported('member %s::%s not found' % (self.cls, name))
        o, n = self.lay[name]
        return Ptr(self.ptr.oid, add64(self.ptr.off, o)), n

    def get(self, st, name, ptr=False):
        p, n = self.at(name)
        return self.E.load_raw(st, p, n, ('ptr',) if ptr else None)

    def set(self, st, name, v):
        p, n = self.at(name)
        if isinstance(v, Seq):
            std.seq_put(self.E, st, p, v)
            return
        self.E.store_raw(st, p, v, n)

    def p(self, name):
        return self.at(name)[0]

    def seq(self, st, name):
        return std.seq_get(self.E, st, self.at(name)[0])


def new_object(E, st, cls, name='this', lazy=None):
    p = E.new_cells(st, class_size(E, cls), name, lazy)
    return View(E, cls, p)


def coord(E, v32=None, name='coord'):
    """a 4-byte COORD/Coord passed as i32: (x, y)"""
    x, y = z3.BitVec(name + '.X', 16), z3.BitVec(name + '.Y', 16)
    return x, y, z3.Concat(y, x)


def run_unit(args):
    pass


def unit_proc(modfile, uname, fn, ctx, q, limit):
    t0 = time.time()
    res = {'unit': uname, 'status': 'error', 'msg': None, 'obligations': [], 'trusted': [], 'inlined': [], 'contracts': []}
    E = None
    try:
        box = []
        def mk(srcs, **kw):
            E = ctx.engine(srcs, **kw)
            E.unit = uname
            E.deadline = t0 + limit - 5
            box.append(E)
            return E
        ctx.mk = mk
        try:
            r = fn(ctx)
            res['status'] = 'done'
            if isinstance(r, dict):
                res['extra'] = r
        except Unsupported as e:
            res['status'] = 'unsupported'
            res['msg'] = str(e)
        except Missing as e:
            res['status'] = 'unsupported'
            res['msg'] = 'loop variable %s not found' % e
        except Abort:
            res['status'] = 'done'
        except RecursionError:
            res['status'] = 'unsupported'
            res['msg'] = 'recursion'
        except Exception as e:
            res['status'] = 'unsupported'
            res['msg'] = 'verifier: %r at %s' % (e, traceback.format_exc()[-700:])
        for E in box:
            if getattr(E, 'guessed', False):
                # locals of a loop were renamed and the invariant was applied to
                # others of the same type: a failure under that guess decides nothing
                n = 0
                for o in E.obl.values():
                    if o.status == 'failed':
                        o.status = 'unknown'
                        n += 1
                if n and res['status'] == 'done':
                    res['status'] = 'unsupported'
                    res['msg'] = 'loop variables renamed'
            if E.loc and res['status'] == 'unsupported' and res['msg'] and ' at ' not in res['msg'][-60:]:
                res['msg'] += ' (at %s)' % (E.loc,)
            for o in E.obl.values():
                res['obligations'].append(dict(fn=o.fn, kind=o.kind, name=o.name, loc=o.loc, status=o.status, paths=o.count,
                                               time=round(o.time, 4), model=o.model, detail=o.detail, solver=o.solver))
            res['trusted'] += [t for t in E.trusted_used if t not in res['trusted']]
            res['inlined'] += [t for t in E.inlined if t not in res['inlined']]
            res['contracts'] += [t for t in E.contracts_used if t not in res['contracts']]
            res.setdefault('targets', [])
            res['targets'] += [t for t in E.targets if t not in res['targets']]
            res['solver_time'] = res.get('solver_time', 0) + E.solver.time
            res['queries'] = res.get('queries', 0) + E.solver.queries
    except BaseException as e:
        res['status'] = 'unsupported'
        res['msg'] = 'verifier: %r' % (e,)
    res['wall'] = time.time() - t0
    q.put(res)


def run_units(ctx, units, limit, jobs=8, total=None):
    """units: [(name, fn)] -> results; each in its own process"""
    pend = list(units)
    running = []
    out = []
    mp = multiprocessing.get_context('fork')
    end = time.time() + total if total else None
    while pend or running:
        if end and time.time() > end:
            # the whole check has to answer in time: what is not decided yet stays so
            for name, p, q, t0 in running:
                if q.empty():
                    p.kill()
            late = [(n, t0) for n, p, q, t0 in running if q.empty()] + [(n, time.time()) for n, _ in pend]
            out += [q.get() for n, p, q, t0 in running if not q.empty()]
            out += [{'unit': n, 'status': 'unsupported', 'msg': 'time limit of the check', 'obligations': [], 'trusted': [],
                     'inlined': [], 'contracts': [], 'wall': time.time() - t0} for n, t0 in late]
            break
        while pend and len(running) < jobs:
            name, fn = pend.pop(0)
            q = mp.SimpleQueue()
            p = mp.Process(target=unit_proc, args=(None, name, fn, ctx, q, limit))
            p.start()
            running.append((name, p, q, time.time()))
        for r in list(running):
            name, p, q, t0 = r
            if not q.empty():
                out.append(q.get())
                p.join(10)
                running.remove(r)
            elif not p.is_alive():
                if not q.empty():
                    continue
                out.append({'unit': name, 'status': 'unsupported', 'msg': 'unit process ended (exit %s)' % p.exitcode,
                            'obligations': [], 'trusted': [], 'inlined': [], 'contracts': [], 'wall': time.time() - t0})
                running.remove(r)
            elif time.time() - t0 > limit:
                p.kill()
                out.append({'unit': name, 'status': 'unsupported', 'msg': 'time limit', 'obligations': [], 'trusted': [],
                            'inlined': [], 'contracts': [], 'wall': time.time() - t0})
                running.remove(r)
        time.sleep(0.02)
    return out


def sub_array(E, st, view, member, esz=1, farr=None):
    """keep the array member of an object as an object of its own"""
    off, size = view.lay[member]
    p = E.new_arr(st, esz, {0: esz}, size // esz, member, {0: farr} if farr is not None else None)
    E.subobj.setdefault(view.ptr.oid, []).append((view.ptr.off + off, size, p.oid))
    return p


def loop_calls(pat):
    """selects, for a LoopSpec, the loop whose body calls a function of that name"""
    r = re.compile(pat)

    def pred(E, f, h):
        for b in f.loops[h]:
            for i in f.blocks[b].ins:
                if i.op in ('call', 'invoke'):
                    for n in re.findall(r'@[\w$.]+|@"[^"]*"', i.text):
                        if r.search(E.dem.get(n, n.lstrip('@'))):
                            return True
        return False
    return pred
