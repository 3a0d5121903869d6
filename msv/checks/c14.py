"""C14: heaters."""
import numpy as np

from .. import ctrl, lib, nets

RULE = ('one evaluation = one finished simulation of a controlled heated pipe whose cells were replayed in every step with '
        'the recorded heat as source term; distinct = (heated cells, controller, flow kind, limits reached, shut-down seen)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'in a step in which the shut-down sets in the mean heat flow is recorded; the balance of this step is checked to about half the heat of the step',
               'the heat exchange with the ambient is known to about 5 %, see C03']


def gen(tier, seed):
    n = 150 if tier == 'quick' else 1500
    out = []
    for i in range(n):
        r = lib.rng('c14', seed, i)
        out.append(dict(seed='c14_%d_%d' % (seed, i), i=i, tf=r.choice([10.0, 20.0, 40.0]),
                        fk=r.choice(['const', 'const', 'const', 'rev', 'zero', 'series']),
                        hot=i % 5 == 4, kmax=150 if tier == 'quick' else 400))
    return out


def run(c):
    from .. import ref, scen
    v, r = lib.V(), lib.rng(c['seed'])
    n = nets.Net(r, c['tf'])
    i, o = n.bc('i'), n.bc('o')
    g = r.randint(3, 9)
    hs = r.choice(['all', 'single', 'range', 'range'])
    kw = dict(heat_spread=hs)
    cells = slice(0, g)
    if hs == 'single':
        a = r.randint(0, g - 1)
        kw['heated_cells'] = a
        cells = slice(a, a + 1)
    elif hs == 'range':
        a = r.randint(0, g - 2)
        b = r.randint(a + 1, g - 1)
        kw['heated_cells'] = nets.tup(a, b) if r.random() < 0.5 else [a, b]
        cells = slice(a, b)
    fl = n.dnflow(0.1, 0.6)
    up = round(fl * 4180 * r.uniform(2, 30), 1)
    lo = 0.0 if r.random() < 0.7 else round(up * r.uniform(0.05, 0.5), 1)
    if c['hot']:
        fl *= 0.05
        for b in n.s['bcs']:
            b['T'] = 90.0
    p = n.gs(g, T=round(r.uniform(92, 107), 1) if c['hot'] else None)
    n.part('HeatedPipe', 'h', length=round(g * r.uniform(0.2, 0.6), 2), grid_points=g, lower_limit=lo, upper_limit=up, **kw, **p)
    # ratings which heat a cell by many kelvin per second leave the valid range within a step
    hp = n.s['parts'][-1]['kw']
    mc = ref.Part(n.s['parts'][-1]).mcp(np.full(g, 60.0)).min() * (cells.stop - cells.start)
    if up > 4 * mc:
        lo, up = round(lo * 4 * mc / up, 1), round(4 * mc, 1)
        hp.update(lower_limit=lo, upper_limit=up)
    n.pump('pu', round(fl, 6))
    pk = next(x for x in n.s['parts'] if x['n'] == 'pu')['kw']
    n.chain(i, ('h',) + n.io(), ('pu', 'in', 'out'), o)
    s = n.s
    if c['fk'] == 'zero':
        pk['const_val'] = pk['start_massflow'] = 0.0
    elif c['fk'] == 'series':
        x = [round(pk['const_val'] * r.uniform(-1, 1), 6) if r.random() > 0.2 else 0.0 for _ in range(100)]
        del pk['const_val']
        pk.update(time_series=nets.ts(x, 1.0), start_massflow=max(x[0], 0.0))
    elif c['fk'] == 'rev':
        from . import c02
        c02.swap(s, 'pu')
    dt = r.choice([0.5, 1.0])
    s['tfkw'] = dict(max_stepsize=dt, rtol=r.choice([1e-2, 1e-3]), atol=r.choice([1e-2, 1e-3]))
    act = dict(kind='heat', part='h', lower_limit=lo, upper_limit=up, scale=up, start=0.0)
    part, port, cell = ctrl.sensor(r, s, ['h'])
    ck = ctrl.base_kw(r, 'h', part, port, CV_saturation=nets.tup(r.choice([0.0, -up, 0.3 * up]), up * r.uniform(0.4, 2.0)))
    if c['hot']:
        ck['setpoint'] = 200.0
        ck['invert'] = False
    typ = r.choice(['PID', 'BangBang'])
    if typ == 'PID':
        ck.update(ctrl.pid_kw(r, 3 * up, c['tf']))
    else:
        ck.update(ctrl.bb_kw(r, 1.0))
        if c['hot']:
            ck.update(hysteresis=2.0)
    if r.random() < 0.3:
        ck['slope'] = nets.tup(-up / r.uniform(0.5, 20), up / r.uniform(0.5, 20))
    s['ctrls'] = [dict(t=typ, n='c', kw=ck)]
    tr = scen.trace(scen.run(s))
    t = tr['t']
    K = len(t)
    H = tr['h']['res']
    Q = tr['h']['res_dQ'].reshape(K, -1)[:, 0]
    key = '%s %s %s' % (hs, typ, c['fk'])
    st = dict(steps=K - 1, cells=0, exact=0, heated_steps=int((Q > 0).sum()), full_power_steps=int((Q >= up).sum()),
              shutdown_steps=0, law=0)
    v.chk(len(Q) == K and np.isfinite(Q).all(), 'record', 'heat flow recorded for %d of %d times' % (len(Q), K))
    hot = H.max(axis=1) >= 110.0
    q = ref.Net(s).parts['h']
    nc = cells.stop - cells.start
    # steps in which some attempt (also a rejected one) could have come to the shut-down temperature
    reach = dt * up / nc / q.mcp(np.full(g, 60.0)).min() * 1.2 + 1.0
    cut = np.append(False, H[:-1].max(axis=1) + reach >= 110.0)
    # limits (the heater is idle before the control acts for the first time)
    for k in range(2, K):
        v.chk((0.0 if cut[k] else lo) - 1e-6 <= Q[k] <= up * (1 + 1e-12), 'limit',
              lambda: 'heat flow %.9g W in step %d outside the limits %g..%g' % (Q[k], k, lo, up))
    for k in range(1, K):
        if hot[k - 1]:
            st['shutdown_steps'] += 1
            v.chk(Q[k] == 0.0, 'shutdown', lambda: 'step %d starts with %.6g degC in the heater but %.9g W are recorded'
                  % (k, H[k - 1].max(), Q[k]))
    # set value: only as long as no shut-down interferes
    free = int(np.argmax(cut)) if cut.any() else K
    if free > 3:
        seen, states = ctrl.follow(v, 'set', tr, [dict(c=s['ctrls'][0], a=act, part=part, cell=cell, sp=lambda k: ck['setpoint'])],
                                   kmax=free - 1)
        st['law'] = seen['cmp']

    def replay(first, second):
        calls = [0, 0]

        def heat(k):
            if calls[0] != k:
                calls[:] = [k, 0]
            calls[1] += 1
            x = np.zeros(g)
            x[cells] = Q[k] * (first if calls[1] == 1 else second) / nc
            return x
        rep = ref.Replay(s, heat={'h': heat})
        return (x for x in rep.steps(tr, kmax=c['kmax']) if x[1] == 'h')
    # the recorded heat in the whole step, or (shut-down sets in within the step) twice in its first stage only
    for one, two in zip(replay(1, 1), replay(2, 0)):
        k, _, a, b, tol, sc, pred = one
        h = t[k] - t[k - 1]
        num = 2e-9 * (1 + np.abs(a))

        def lim(tol, sc):
            if k <= 5:
                return num + 2 * tol + h * 10 * q.At * (np.abs(q.Ta - a).max() + 0.1) / q.mcp(a)
            return num + 0.05 * sc + 2 * tol + 0.004 * sc.max()
        e, l = np.abs(a - b), lim(tol, sc)
        st['cells'] += g
        st['exact'] += int((e <= num + 1e-3 * sc.max() + 2 * tol).all())
        if not (e <= l).all() and two[6].max() >= 110.0:
            st['cut_steps'] = st.get('cut_steps', 0) + 1
            e, l = np.abs(two[2] - b), lim(two[4], two[5])
        if not (e <= l).all():
            j = int(np.argmax(e - l))
            v.add('cell:' + hs, 'heated pipe cell %d/%d (heated %d..%d) at step %d (h=%.4g, %.6g W): recorded %.12g, balance '
                  'gives %.12g (difference %.3g, allowed %.3g)' % (j, g, cells.start, cells.stop - 1, k, h, Q[k], b[j], a[j], e[j], l[j]))
    if K > 40 and H.max() < 109:
        v.chk(st['exact'] > 0.5 * (min(K, c['kmax']) - 6), 'systematic', lambda: 'only %d steps reproduced exactly' % st['exact'])
    return dict(viol=v, keys=[key + (' full' if st['full_power_steps'] else '') + (' shut' if st['shutdown_steps'] else '')],
                stats=st, sample=dict(kind=key, **st))


def finish(results, by_id, stats):
    if len(results) > 100 and (stats.get('shutdown_steps', 0) < 20 or stats.get('heated_steps', 0) < 500):
        return [dict(key='reach', msg='too few observations: %s' % stats)]
    return []
