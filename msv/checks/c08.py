"""C08: time-varying boundary conditions."""
import copy

import numpy as np

from .. import lib, nets
from . import c03

RULE = ('one evaluation = one simulation with time series inputs whose applied value was inferred in every step (recorded flow, '
        'heat balance replay or controller output) and compared with an independent evaluation of the series; distinct = '
        '(input kind, family, spacing class, series shape)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'boundary temperatures are observed through the heat balance of the adjacent volumes']


def gen(tier, seed):
    n = 220 if tier == 'quick' else 1200
    kinds = ['port', 'port', 'pump', 'valve', 'coarse', 'setpoint', 'amb', 'const', 'multi', 'short', 'portcoarse']
    out = []
    for i in range(n):
        r = lib.rng('c08', seed, i)
        out.append(dict(kind=kinds[i % len(kinds)], seed='c08_%d_%d' % (seed, i), tf=r.choice([8.0, 20.0, 31.0])))
    return out


def series(r, n, lo, hi):
    shape = r.choice(['rand', 'ramp', 'step', 'spike', 'saw'])
    x = np.arange(n)
    if shape == 'rand':
        v = [r.uniform(lo, hi) for _ in range(n)]
    elif shape == 'ramp':
        v = lo + (hi - lo) * x / (n - 1)
    elif shape == 'step':
        v = np.where(x < r.randint(1, n - 2), lo, hi)
    elif shape == 'spike':
        v = np.full(n, lo)
        v[r.sample(range(n), max(1, n // 8))] = hi
    else:
        v = lo + (hi - lo) * (x % 5) / 4
    return [round(float(y), 6) for y in v], shape


def val(v, dt, t):
    return float(np.interp(t / dt, np.arange(len(v)), v))


def run(c):
    return globals()[c['kind']](c, lib.V(), lib.rng(c['seed']))


def done(c, v, keys, t, **kw):
    return dict(viol=v, keys=[c['kind'] + ' ' + k for k in keys], stats=dict(kw.pop('stats', {}), steps=len(t) - 1),
                sample=dict(kind=c['kind'], steps=len(t) - 1, **kw))


def port(c, v, r, nports=1, tail=None):
    from .. import ref, scen
    fam = r.choice(['chain', 'chain', 'branched', 'valve', 'conn3', 'tes'])
    n = nets.FAM[fam](r, tf=c['tf'])
    dt = r.choice([1.0, 1.0, 2.0, 5.0, 0.5])
    m = int(c['tf'] / dt) + (3 if tail is None else tail)
    S = {}
    shapes = []
    how = r.choice(['add', 'assign'])
    bcs = [b['n'] for b in n.s['bcs']]
    for b in r.sample(bcs, min(nports, len(bcs))):
        S[b], sh = series(r, m, 5.0, 90.0)
        shapes.append(sh)
        for x in n.s['bcs']:
            if x['n'] == b:
                if how == 'add':
                    x.update(const=False, T=nets.ts(S[b], dt))
                else:
                    n.s.setdefault('dyn', []).append(dict(open_port=b, time_series=nets.ts(S[b], dt)))
    n.s['tfkw'] = dict(max_stepsize=min(dt, 1.0))
    tr = scen.trace(scen.run(n.s))
    t = tr['t']
    spec = copy.deepcopy(n.s)
    for x in spec['bcs']:
        if isinstance(x['T'], dict):
            x['T'] = S[x['n']][0]
    rep = ref.Replay(spec)

    def bc(k):
        d = dict(rep.net.bc)
        for b, x in S.items():
            d[b] = val(x, dt, t[k - 1])
        return d, d
    rep.bcs = bc
    x = c03.judge(dict(fam=fam, pk='', vk='', kmax=250), lib.V(), spec, tr, rep, {})
    for y in x['viol']:
        v.add('port', 'with boundary series at %s: %s' % (list(S), y['msg']))
    return done(c, v, ['%s %s %g %s' % (fam, how, dt, '+'.join(shapes))], t, stats=dict(cells=x['stats']['cells']),
                family=fam, spacing=dt, shapes=shapes)


def multi(c, v, r):
    return port(c, v, r, nports=3)


def short(c, v, r):
    """series which end just after the time frame"""
    return port(c, v, r, tail=1)


def pump(c, v, r):
    from .. import scen
    dt = r.choice([0.5, 1.0, 3.0, 10.0])
    m = int(c['tf'] / dt) + 3
    q, sh = series(r, m, 0.0, 0.3)
    n = nets.chain(r, tf=c['tf'], pumpdm=nets.ts(q, dt))
    n.s['tfkw'] = dict(max_stepsize=dt)
    tr = scen.trace(scen.run(n.s))
    t = tr['t']
    for k in range(1, len(t)):
        w = val(q, dt, t[k - 1])
        a = float(np.ravel(tr['pu']['res_dm'][k])[0])
        v.chk(abs(a - w) <= 1e-7, 'pump', lambda: 'pump flow in step %d (from t=%.6g) is %.9g, the series has %.9g' % (k, t[k - 1], a, w))
    return done(c, v, ['%g %s' % (dt, sh)], t, spacing=dt, shape=sh)


def valve(c, v, r):
    from .. import scen
    dt = r.choice([0.5, 1.0, 3.0])
    m = int(c['tf'] / dt) + 3
    q, sh = series(r, m, 0.0, 1.0)
    n = nets.valve(r, tf=c['tf'])
    for p in n.s['parts']:
        if p['t'] == 'PipeWith3wValve':
            del p['kw']['const_val']
            p['kw'].update(time_series=nets.ts(q, dt), start_portA_opening=q[0])
    n.s['tfkw'] = dict(max_stepsize=dt)
    tr = scen.trace(scen.run(n.s))
    t = tr['t']
    for k in range(1, len(t)):
        w = val(q, dt, t[k - 1])
        a = abs(np.ravel(tr['pa']['res_dm'][k])[0] / np.ravel(tr['pu']['res_dm'][k])[0])
        b = abs(np.ravel(tr['pb']['res_dm'][k])[0] / np.ravel(tr['pu']['res_dm'][k])[0])
        v.chk(abs(a - w) <= 1e-6 and abs(a + b - 1) < 1e-9, 'valve',
              lambda: 'share of port A in step %d is %.9g, the series has %.9g (B %.6g)' % (k, a, w, b))
    return done(c, v, ['%g %s' % (dt, sh)], t, spacing=dt, shape=sh)


def window(q, a, b):
    """hull, roughness and mean of the series over index interval [a, b]"""
    last = len(q) - 1
    i, j = min(int(np.floor(a + 1e-9)), last), min(int(np.ceil(b - 1e-9)), last)
    w = q[max(i - 1, 0):min(j + 1, last) + 1]
    rough = max(abs(x - y) for x, y in zip(w, w[1:])) if len(w) > 1 else 0.0
    x = np.linspace(a, b, 400)
    return min(q[i:j + 1]), max(q[i:j + 1]), rough, float(np.interp(x, np.arange(len(q)), q).mean())


def coarse(c, v, r):
    """steps longer than the spacing: average over the step"""
    from .. import scen
    dt = r.choice([0.05, 0.1, 0.2])
    m = int(c['tf'] / dt) + 60
    q, sh = series(r, m, 0.05, 0.12)
    n = nets.chain(r, tf=c['tf'], pumpdm=nets.ts(q, dt))
    for p in n.s['parts']:
        p['kw']['pipe_specs'] = nets.pspec('DN50')
    n.s['tfkw'] = dict(max_stepsize=r.choice([0.3, 1.0, 3.0]), rtol=1e-2, atol=1e-2)
    tr = scen.trace(scen.run(n.s))
    t = tr['t']
    cnt = 0
    for k in range(2, len(t)):
        a = float(np.ravel(tr['pu']['res_dm'][k])[0])
        h = t[k - 1] - t[k - 2]
        cells = h / dt
        if cells <= 1:
            w = val(q, dt, t[k - 1])
            v.chk(abs(a - w) <= 1e-6, 'pump', lambda: 'pump flow %.9g, series %.9g' % (a, w))
        else:
            cnt += 1
            lo, hi, ro, me = window(q, t[k - 2] / dt, t[k - 1] / dt)
            v.chk(lo - 1e-6 <= a <= hi + 1e-6, 'hull', lambda: 'pump flow %.9g after a step over %.1f series values is outside their range [%.6g, %.6g]' % (a, cells, lo, hi))
            tol = 1e-6 + ro * (1.0 if sh in ('ramp', 'step', 'spike') else 1.0) if cells < 4 else 1e-6 + ro * (0.6 + 2 / cells)
            v.chk(abs(a - me) <= tol, 'mean', lambda: 'pump flow %.9g after a step over %.1f series values, their mean is %.9g (allowed %.3g)' % (a, cells, me, tol))
    return done(c, v, ['%g %s' % (dt, sh)], t, stats=dict(averaged_steps=cnt), spacing=dt, shape=sh, averaged=cnt)


def portcoarse(c, v, r):
    """a boundary temperature and a pump flow sharing one fine index: both must see the same average (flow = T/1000)"""
    from .. import ref, scen
    dt = r.choice([0.05, 0.1])
    m = int(c['tf'] / dt) + 60
    T, sh = series(r, m, 20.0, 80.0)
    q = [x / 500.0 for x in T]
    n = nets.chain(r, tf=c['tf'], pumpdm=nets.ts(q, dt))
    for p in n.s['parts']:
        p['kw']['pipe_specs'] = nets.pspec('DN50')
    n.s['bcs'][0].update(const=False, T=nets.ts(T, dt))
    n.s['tfkw'] = dict(max_stepsize=r.choice([0.3, 1.0]), rtol=1e-2, atol=1e-2)
    tr = scen.trace(scen.run(n.s))
    t = tr['t']
    spec = copy.deepcopy(n.s)
    spec['bcs'][0]['T'] = T[0]
    rep = ref.Replay(spec)

    def bc(k):
        d = dict(rep.net.bc)
        d[spec['bcs'][0]['n']] = float(np.ravel(tr['pu']['res_dm'][k])[0]) * 500.0
        return d, d
    rep.bcs = bc
    x = c03.judge(dict(fam='chain', pk='', vk='', kmax=250), lib.V(), spec, tr, rep, {})
    for y in x['viol']:
        v.add('portcoarse', y['msg'])
    return done(c, v, ['%g %s' % (dt, sh)], t, spacing=dt, shape=sh)


def setpoint(c, v, r):
    from .. import scen
    dt = r.choice([0.5, 1.0, 2.0])
    m = int(c['tf'] / dt) + 3
    q, sh = series(r, m, 30.0, 90.0)
    kp = 0.002
    n = nets.chain(r, tf=c['tf'], pumpdm=dict(start_massflow=0.05, ctrl_required=True, lower_limit=0.0, upper_limit=10.0, maximum_flow=10.0))
    for b in n.s['bcs']:
        b['T'] = round(r.uniform(5, 25), 2)
    for p in n.s['parts']:
        p['kw']['T_init'] = 15.0
    part = r.choice([p['n'] for p in n.s['parts']])
    n.s['ctrls'].append(dict(t='PID', n='c', kw=dict(
        actuator='pu', process_CV_mode='direct', CV_saturation=nets.tup(0.0, 10.0), controlled_part=part, controlled_port=0,
        reference_part='none', setpoint=q[0], sub_controller=False, off_state=0.0, time_domain='discrete', deadtime=0.0,
        slope=nets.tup(0, 0), invert=False, terms='P', loop_tuning='manual', Kp=kp, norm_timestep=1.0, adapt_coefficients=False)))
    n.s['dyn'] = [dict(control='c', time_series=nets.ts(q, dt))]
    n.s['tfkw'] = dict(max_stepsize=dt)
    tr = scen.trace(scen.run(n.s))
    t = tr['t']
    for k in range(2, len(t)):
        pv = tr[part]['res'][k - 1][0]
        # the controller of the previous step ran with the set point of that step's start
        w = max(kp * (val(q, dt, t[k - 2]) - pv), 0.0)
        a = float(np.ravel(tr['pu']['res_dm'][k])[0])
        v.chk(abs(a - w) <= 1e-8, 'setpoint', lambda: 'controlled flow in step %d is %.9g, set point series gives %.9g' % (k, a, w))
    return done(c, v, ['%g %s' % (dt, sh)], t, spacing=dt, shape=sh)


def amb(c, v, r):
    from .. import ref, scen
    dt = r.choice([1.0, 2.0])
    m = int(c['tf'] / dt) + 3
    q, sh = series(r, m, -10.0, 40.0)
    n = nets.chain(r, tf=c['tf'])
    part = r.choice([p['n'] for p in n.s['parts']])
    for p in n.s['parts']:
        if p['n'] == part:
            p['kw'].update(T_init=80.0, insulation_thickness=0.002)
    n.s['dyn'] = [dict(part=part, variable_name='_T_amb', array_index=0, time_series=nets.ts(q, dt))]
    n.s['tfkw'] = dict(max_stepsize=0.5)
    with scen.quiet():
        s = scen.build(n.s)
        s.initialize_sim()
    if not hasattr(s.parts[part], '_T_amb'):
        return done(c, v, [], [0])
    tr = scen.trace(scen.run(n.s))
    t = tr['t']
    rep = ref.Replay(n.s)

    def pre(k, net):
        net.parts[part].Ta = val(q, dt, t[k - 1])
    rep.pre = pre
    x = c03.judge(dict(fam='chain', pk='', vk='', kmax=200), lib.V(), n.s, tr, rep, {})
    for y in x['viol']:
        v.add('amb', 'with ambient series at %s: %s' % (part, y['msg']))
    return done(c, v, ['%g %s' % (dt, sh)], t, spacing=dt, shape=sh)


def const(c, v, r):
    """a constant series is the same as the constant"""
    from .. import scen
    n = nets.chain(r, tf=c['tf'])
    a = copy.deepcopy(n.s)
    b = copy.deepcopy(n.s)
    dt = r.choice([0.03, 0.5, 1.0, 7.0])
    m = int(c['tf'] / dt) + 120
    what = r.choice(['port', 'pump', 'both'])
    if what != 'pump':
        for x in b['bcs']:
            x.update(const=False, T=nets.ts([x['T']] * m, dt))
    if what != 'port':
        for p in b['parts']:
            if p['t'] == 'PipeWithPump':
                q = p['kw'].pop('const_val')
                p['kw']['time_series'] = nets.ts([q] * m, dt)
    ta, tb = scen.trace(scen.run(a)), scen.trace(scen.run(b))
    d = lib.diff_traces(ta, tb, tol=1e-9)
    v.chk(d is None, 'const', lambda: 'constant series (%s) differs from the constant: %s' % (what, d))
    return done(c, v, ['%s %g' % (what, dt)], ta['t'], what=what)
