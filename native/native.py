#!/usr/bin/env python3-vt
"""Builds and runs the native harnesses under wine in a private prefix."""
import os, sys, subprocess, shutil, tempfile, time, json, threading, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'x86_64-w64-mingw32-g++-posix'
FLAGS = ['-std=gnu++11', '-O1', '-w', '-static', '-DUNICODE', '-D_UNICODE', '-D_WIN32_WINNT=0x0501', '-fno-strict-aliasing',
         '-fno-access-control', '-I' + REPO]

# harness name -> extra sources / flags / libs
SPEC = {}


class Runner:
    def __init__(self, ctx, tier, seed):
        self.tier, self.seed = tier, seed
        self.dir = tempfile.mkdtemp(prefix='vnat.')
        self.gendir = getattr(ctx, 'gendir', None)
        self.builds = {}
        self.env = None
        self.th = None
        self.linux = set()

    def start(self, hs):
        self.hs = [h if isinstance(h, tuple) else (h, []) for h in hs]
        for h, a in self.hs:
            if h not in self.builds:
                exe = os.path.join(self.dir, h + '.exe')
                cmd = [CXX] + FLAGS + ['-I' + HERE, '-I' + os.path.join(REPO, 'src/include'), '-I' + self.gendir,
                                       os.path.join(HERE, h + '.cc'), '-o', exe]
                src = open(os.path.join(HERE, h + '.cc')).read()
                if '// LINUX' in src[:2000]:
                    # a Unix adapter harness: built for and run on this system
                    self.linux.add(h)
                    cmd = ['g++', '-std=gnu++11', '-O1', '-w', '-fno-access-control', '-D__declspec(x)=', '-I' + REPO, '-I' + HERE,
                           '-I' + os.path.join(os.path.dirname(HERE), 'irv', 'unixstubs'), '-I' + os.path.join(REPO, 'src/include'), '-I' + self.gendir,
                           os.path.join(HERE, h + '.cc'), '-o', exe]
                for l in src.splitlines()[:30]:
                    if l.startswith('// FLAGS:'):
                        cmd[5:5] = l[9:].split()
                    if l.startswith('// SRC:'):
                        cmd += [os.path.join(REPO, x) for x in l[7:].split()]
                    if l.startswith('// LIBS:'):
                        cmd += l[8:].split()
                errf = open(os.path.join(self.dir, h + '.err'), 'w')
                self.builds[h] = (exe, subprocess.Popen(cmd, stdout=errf, stderr=errf))
        if any(h not in self.linux for h, a in self.hs):
            self.th = threading.Thread(target=self.mkprefix)
            self.th.start()

    def mkprefix(self):
        p = os.path.join(self.dir, 'wine')
        subprocess.call(['cp', '-a', '/opt/vp/wine', p])
        self.env = dict(os.environ, WINEPREFIX=p, WINEDEBUG='-all', WINEDLLOVERRIDES='mscoree,mshtml=;winemenubuilder.exe=d', HOME=self.dir)
        self.env.pop('DISPLAY', None)

    def run(self, exe, args, timeout, cwd=None):
        lin = os.path.basename(exe)[:-4] in self.linux
        p = subprocess.Popen(([] if lin else ['wine']) + [exe] + args, env=dict(os.environ) if lin else self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.DEVNULL, cwd=cwd or self.dir, start_new_session=True)
        try:
            o, e = p.communicate(timeout=timeout)
            return p.returncode, o.decode('utf8', 'replace').replace('\r', ''), e.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                o, e = p.communicate(timeout=5)
            except Exception:
                o = b''
            return 'timeout', (o or b'').decode('utf8', 'replace').replace('\r', ''), ''

    def finish(self, models, budget):
        out = []
        if self.th:
            self.th.join()
        ths = []
        for h, a in self.hs:
            exe, p = self.builds[h]
            r = {'harness': h, 'evaluations': 0, 'distinct': 0, 'fails': [], 'samples': [], 'wall': 0}
            out.append(r)
            rc = p.wait()
            if rc != 0:
                r['error'] = 'does not build against the current tree: ' + open(os.path.join(self.dir, h + '.err')).read()[-600:]
                continue
            t = threading.Thread(target=self.one, args=(h, exe, a, r, max(20, budget - 20), models))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        return out

    def one(self, h, exe, a, r, timeout, models):
        t0 = time.time()
        args = ['--seed', str(self.seed), '--tier', self.tier] + a
        # counterexamples of failed obligations, for the harness to replay
        for u, o in models:
            if o['model']:
                args += ['--model', u + ';' + ';'.join('%s=%s' % kv for kv in sorted(o['model'].items()))]
        timeout = min(timeout, 300 if self.tier == 'quick' else 1500)
        rc, o, e = self.run(exe, args, timeout)
        cur = None
        done = False
        for l in o.splitlines():
            if l.startswith('FAIL '):
                body = l[5:]
                case, _, what = body.partition(' ## ')
                r['fails'].append({'harness': h, 'case': case, 'what': what})
            elif l.startswith('COUNT '):
                k = dict(x.split('=') for x in l[6:].split())
                r['evaluations'] += int(k.get('evaluations', 0))
                r['distinct'] += int(k.get('distinct', 0))
                done = True
            elif l.startswith('SAMPLE '):
                r['samples'].append(h + ': ' + l[7:])
            elif l.startswith('CASE '):
                cur = l[5:]
        if rc == 'timeout' or (rc != 0 and not r['fails']) or not done:
            # crash or hang: the last announced case is the failing input, if it does so again
            last = cur
            if last is not None:
                rc2, o2, e2 = self.run(exe, ['--seed', str(self.seed), '--tier', self.tier] + a + ['--case', last], min(timeout, 60))
                bad = rc2 == 'timeout' or rc2 != 0
                fl = [l for l in o2.splitlines() if l.startswith('FAIL ')]
                if fl:
                    for l in fl:
                        case, _, what = l[5:].partition(' ## ')
                        r['fails'].append({'harness': h, 'case': case, 'what': what})
                elif bad:
                    r['fails'].append({'harness': h, 'case': last, 'what': 'the code under test %s' % ('does not return' if rc2 == 'timeout' else 'crashes or aborts (exit status %s): %s' % (rc2, (o2 + e2)[-300:].replace('\n', ' ')))})
                else:
                    r['error'] = 'harness ended with %s without result' % (rc,)
            elif not r['fails']:
                r['error'] = 'harness ended with %s without result: %s' % (rc, (o + e)[-300:])
        r['wall'] = time.time() - t0

    def close(self):
        for exe, p in self.builds.values():
            if p.poll() is None:
                p.kill()
        if self.th:
            self.th.join()
        if self.env:
            try:
                subprocess.call(['wineserver', '-k'], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20)
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'irv'))
    import lib
    ctx = lib.Ctx('quick')
    r = Runner(ctx, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')))
    try:
        h = sys.argv[1]
        r.start([h])
        if r.th:
            r.th.join()
        exe, p = r.builds[h]
        rc = p.wait()
        print(open(os.path.join(r.dir, h + '.err')).read()[-3000:])
        if rc == 0:
            t = time.time()
            rc, o, e = r.run(exe, ['--seed', str(r.seed), '--tier', r.tier] + sys.argv[2:], 600)
            print('\n'.join(l[:400] for l in o.splitlines()[-60:] if not l.startswith('CASE ')), e[-500:])
            print('exit', rc, '%.1f s' % (time.time() - t))
    finally:
        r.close()
        ctx.close()
