import sys, os, importlib, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'irv')); sys.path.insert(0, os.path.join(V, 'props'))
import lib
m = importlib.import_module(sys.argv[1])
only = sys.argv[2] if len(sys.argv) > 2 else None
ctx = lib.Ctx('quick')
units = [(n, f) for n, f in m.UNITS if only is None or only in n]
if os.environ.get('SEQ'):
    import engine
    for n, f in units:
        E = []
        def mk(s):
            e = ctx.engine(s); e.unit = n; e.debug = True; E.append(e); return e
        ctx.mk = mk
        t = time.time()
        f(ctx)
        for e in E:
            for o in e.obl.values():
                print(n, o.status, o.fn, o.kind, o.name, o.loc, o.count, round(o.time, 2))
            print(n, 'queries', e.solver.queries, round(e.solver.time, 2), 'wall', round(time.time() - t, 2), 'trusted', e.trusted_used, 'contracts', e.contracts_used)
else:
    for r in lib.run_units(ctx, units, float(os.environ.get('LIMIT', '300'))):
        st = {}
        for o in r['obligations']:
            st[o['status']] = st.get(o['status'], 0) + 1
        print(r['unit'], r['status'], (r.get('msg') or '')[-500:], st, 'q', r.get('queries'), 'st %.1f wall %.1f' % (r.get('solver_time', 0), r['wall']))
        for o in r['obligations']:
            if o['status'] != 'discharged' or os.environ.get('V'):
                print('   ', o['status'], o['fn'], o['kind'], '|', o['name'], o['loc'], o['model'], (o['detail'] or '')[:300])
ctx.close()
