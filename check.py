#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree:
  A  every proof unit of props/PROPERTY.py is executed over the LLVM IR clang
     makes from /repo now; each generated obligation goes to Z3;
  B  the property's native harness (native/*.cc, compiled with the project's own
     cross compiler together with /repo's sources, run under wine) runs the same
     code against an independent oracle: it replays solver counterexamples,
     supplies concrete failing inputs, and is the bounded stand-in (labelled so)
     for what A cannot reach.
Exit 0: held.  Exit 1: a line 'VIOLATION property=.. replay=..'.
"""
import os, sys, json, time, importlib, traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'irv'))
sys.path.insert(0, os.path.join(V, 'props'))
sys.path.insert(0, os.path.join(V, 'native'))
os.environ.setdefault('PYTHONHASHSEED', '0')


def known_findings(prop):
    """-> [(kind, key, text)] of this property"""
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' | ')
                out.append((key.strip(), text.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    budget = 800 if tier == 'quick' else 3000
    import lib, native
    m = importlib.import_module(prop)
    ev = os.path.join(V, 'evidence')
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith(prop + '.replay'):
            os.remove(os.path.join(ev, f))
    ctx = lib.Ctx(tier)
    results = []
    nat = []
    lim = float(getattr(m, 'LIMIT', 240)) * (1 if tier == 'quick' else 3)
    try:
        # native harnesses build while the proofs run
        runner = native.Runner(ctx, tier, seed)
        # DEPS: the properties whose contracts this one's callers rely on; their units are part of this check
        hs = list(getattr(m, 'HARNESS', []))
        srcs = list(getattr(m, 'SRCS', []))
        units = list(getattr(m, 'UNITS', []))
        for d in getattr(m, 'DEPS', []):
            d, names, dh = d if isinstance(d, tuple) else (d, None, True)
            dm = importlib.import_module(d)
            srcs += [x for x in getattr(dm, "SRCS", []) if x not in srcs]
            units += [('%s:%s' % (d, n), f) for n, f in dm.UNITS if names is None or any(n.startswith(x) for x in names)]
            if dh:
                hs += [h for h in getattr(dm, 'HARNESS', []) if h not in hs]
        runner.start(hs)
        err = ctx.compile(srcs)
        if units:
            results = lib.run_units(ctx, units, min(lim, budget - 120), jobs=getattr(m, "JOBS", 6), total=budget - 120 - (time.time() - t0))
        models = [(r['unit'], o) for r in results for o in r['obligations'] if o['status'] == 'failed']
        nat = runner.finish(models, budget - (time.time() - t0))
        broken_build = False
        if err is not None or any(r.get('error') for r in nat):
            # does the project itself still compile?  then only our extraction is affected
            pass
    finally:
        ctx.close()
        try:
            runner.close()
        except Exception:
            pass

    obl = [dict(o, unit=r['unit']) for r in results for o in r['obligations']]
    discharged = [o for o in obl if o['status'] == 'discharged']
    failed = [o for o in obl if o['status'] == 'failed']
    unknown = [o for o in obl if o['status'] == 'unknown']
    unsup = [r for r in results if r['status'] != 'done']
    empty = [r['unit'] for r in results if r['status'] == 'done' and not r['obligations']]
    fails = [f for r in nat for f in r['fails']]
    herr = [r for r in nat if r.get('error')]
    kf = known_findings(prop)

    def known(text):
        for k, t in kf:
            if k in text:
                return k
        return None

    viol = []
    seen_known = set()
    # concrete failing inputs first
    new_f = []
    for f in fails:
        k = known(f['case'])
        if k:
            seen_known.add(k)
        else:
            new_f.append(f)
    new_o = []
    for o in failed:
        k = known('%s|%s|%s' % (o['fn'], o['kind'], o['name']))
        if k:
            seen_known.add(k)
        else:
            new_o.append(o)
    for k, t in kf:
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, t))
    rp = os.path.join(ev, prop + '.replay.json')
    if new_f or new_o:
        doc = {'property': prop, 'tier': tier, 'seed': seed,
               'failed_obligations': new_o[:40],
               'failing_inputs': new_f[:40],
               'how_to_replay': ['%s: cd /verif && python3-vt native/native.py %s --case %r' % (f['harness'], f['harness'], f['case']) for f in new_f[:5]]}
        json.dump(doc, open(rp, 'w'), indent=1, default=str)
        for o in new_o[:12]:
            print('failed obligation: %s in %s: %s (%s)%s' % (o['kind'], o['fn'], o['name'], o['loc'],
                  ' counterexample ' + json.dumps(o['model'], default=str)[:300] if o['model'] else ''))
        for f in new_f[:8]:
            print('failing input: [%s] %s -- %s' % (f['harness'], f['case'][:300], f['what'][:400]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if new_f else ' no-failing-input-found'))
        viol = new_f or new_o

    ncase = sum(r['evaluations'] for r in nat)
    ndist = sum(r['distinct'] for r in nat)
    complete = bool(results) and not unsup and not unknown and not empty
    level = getattr(m, 'LEVEL', 'proof')
    if level == 'proof' and not complete and not viol:
        level = 'exploration'
    trusted = sorted({t if isinstance(t, str) else str(t) for r in results for t in r['trusted']})
    assume = ['assumed: ' + t for t in trusted] + list(getattr(m, 'ASSUMPTIONS', []))
    cov = {
        'obligations': len(obl), 'discharged': len(discharged),
        'checker_cmd': 'python3-vt /verif/check.py %s %s' % (prop, tier),
        'trusted_base': ['clang 18 front end (C++ to LLVM IR, -O0)', 'irv verification-condition generator (/verif/irv)', 'Z3 %s' % lib.z3.get_version_string()] + trusted,
        'backends': {'z3': sum(1 for o in discharged if o['solver'] != 'evaluation'), 'evaluated to true during VC generation': sum(1 for o in discharged if o['solver'] == 'evaluation')},
        'solver_time_s': round(sum(r.get('solver_time', 0) for r in results), 2),
        'solver_queries': sum(r.get('queries', 0) or 0 for r in results),
        'functions_under_contract': sorted({t for r in results for t in r.get('targets', [])} | {c for r in results for c in r['contracts'] if r['contracts']}),
        'functions_executed': sorted({f for r in results for f in r['inlined']}),
        'contracts_used_at_calls': sorted({c for r in results for c in r['contracts']}),
        'units': [{'unit': r['unit'], 'status': r['status'], 'why': r.get('msg'), 'obligations': len(r['obligations']), 'wall_s': round(r.get('wall', 0), 1)} for r in results],
        'obligation_kinds': count(o['kind'] for o in obl),
        'failed': [{k: o[k] for k in ('fn', 'kind', 'name', 'loc', 'model')} for o in failed][:50],
        'undecided': [{k: o[k] for k in ('fn', 'kind', 'name', 'loc')} for o in unknown][:50],
        'evaluations': ncase, 'distinct_nontrivial': ndist,
        'rule': getattr(m, 'RULE', 'bounded native harness: generated inputs run through the real functions and compared with the oracle; distinct inputs are counted by hash'),
        'samples': [s for r in nat for s in r['samples']][:12] or [o['fn'] + ': ' + o['name'] for o in obl[:5]] or ['none'],
        'bounded_harness': [{'harness': r['harness'], 'evaluations': r['evaluations'], 'error': r.get('error'), 'wall_s': round(r['wall'], 1)} for r in nat],
        'explanation': getattr(m, 'EXPLANATION', ''),
    }
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assume,
           'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(doc, open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d failed, %d undecided; units %d/%d complete; harness cases %d (%d distinct), %d failing; %.1f s' % (
        prop, len(obl), len(discharged), len(failed), len(unknown), len(results) - len(unsup), len(results), ncase, ndist, len(fails), time.time() - t0))
    for r in unsup:
        print('  unit %s: not decided by the verifier on this tree (%s); bounded harness stands in' % (r['unit'], (r.get('msg') or '')[:300]))
    for o in unknown[:10]:
        print('  undecided: %s %s (%s)' % (o['fn'], o['name'], o['loc']))
    for r in herr:
        print('  harness %s: %s' % (r['harness'], (r['error'] or '')[:400]))
    return 1 if viol else 0


def count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        # the machinery failed, which says nothing about the property
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
