"""C29: condensing flue gas heat exchangers."""
import numpy as np

from .. import lib, nets, scen
from . import c15

RULE = ('one evaluation = one finished simulation of a flue gas heat exchanger with a regression model of its own, fed by a gas pump '
        'or by a CHP plant: both outlets of every step were compared with the prediction of the model; distinct = (how the gas comes, '
        'kind of polynomial, flow regions seen)')
ASSUMPTIONS = ['interpreted kernels (numba disabled)',
               'the predictions come from the scikit-learn pipeline itself, for the inlets and flows of the step',
               'the documented treatment of flows outside the model is part of the specification: up to 10 % of the maximum water flow the '
               'outlets follow the parabola through the model at 10 % (vertex) and the gas inlet at rest, excess water passes by']
TH = 0.1
CP = [4219.4, 4195.5, 4184.1, 4180.1, 4179.6, 4181.5, 4185.1, 4190.2, 4196.9, 4205.2, 4215.7]  # 0, 10, .. 100 degrees


def cp(T):
    return float(np.interp(T, np.arange(11) * 10.0, CP))


def gen(tier, seed):
    n = 60 if tier == 'quick' else 700
    out = []
    for i in range(n):
        r = lib.rng('c29', seed, i)
        out.append(dict(seed='c29_%d_%d' % (seed, i), mode=['pump', 'pump', 'pump', 'chp'][i % 4], tf=r.choice([20.0, 60.0]), i=i,
                        over=int(i % 12 == 5), w=1 + (i % 4 == 3)))
    return out


def build(c, r):
    mdl = dict(seed=r.randint(0, 10 ** 6), degree=r.choice([1, 2, 2, 3]), interaction_only=r.random() < 0.25,
               include_bias=r.random() < 0.5, comps=r.choice([None, None, 4]))
    gmax = float(r.choice([20, 70, 70, 150.5]))
    kw = dict(regression_pipeline={'__hexmdl__': mdl}, max_gas_Nm3h=gmax)
    lo = r.choice([0.0, 0.4, 0.5])
    kw['fluegas_flow_range'] = nets.tup(lo, 1.05)
    wlo, whi = r.choice([(0.0, 1.05), (0.0, 1.05), (0.3, 1.0), (0.0, 0.6)])
    kw['water_flow_range'] = nets.tup(wlo, whi)
    wk = 1.4285714285714285e-3
    if r.random() < 0.4:
        wk = kw['max_water_kgs'] = round(r.uniform(5e-4, 5e-3), 6)
    q = dict(mdl=mdl, gmax=gmax / 3600, wmax=wk * gmax, g=(lo, 1.05), w=(wlo, whi))
    if c['mode'] == 'chp':
        s = c15.build(dict(c, tf=float(r.choice([300.0, 600.0])), hot=0, epi=0), r)[0]
        ck = next(p for p in s['parts'] if p['n'] == 'chp')['kw']
        Pg = ck['power_electrical'] / ck['eta_el']
        ck.update(connect_fluegas_hex=True, fg_hex_name='h', fluegas_flow=round(r.uniform(0.9, 1.3), 3))
        if r.random() < 0.6:
            ck.update(chp_on_at_start=True, start_modulation=round(r.uniform(*ck['modulation_range']['__tup__']), 2))
        q['spec'] = ck['fluegas_flow']
        fl = max(p['kw'].get('const_val', 0) for p in s['parts'] if p['t'] == 'PipeWithPump')
        kw['max_gas_Nm3h'] = float(Pg * ck['fluegas_flow'] / 1e3 * r.choice([1.0, 1.0, 1.4]))
        kw['max_water_kgs'] = fl / kw['max_gas_Nm3h'] / r.choice([0.08, 0.3, 0.9, 1.3])
        q.update(gmax=kw['max_gas_Nm3h'] / 3600, wmax=kw['max_water_kgs'] * kw['max_gas_Nm3h'], gin=round(r.uniform(90, 120), 1))
        s['parts'].insert(r.choice([0, len(s['parts'])]), dict(t='HEXCondPoly', n='h', kw=dict(
            kw, material='carbon_steel', pipe_specs=nets.pspec('DN40'), T_init=40.0, T_amb=20.0)))
        s['bcs'] += [dict(n='BC_g', T=q['gin']), dict(n='BC_h', T=50.0)]
        j = next(i for i, x in enumerate(s['conns']) if {x[0], x[2]} == {'u', 'chp'})
        a, ap, b, bp = s['conns'].pop(j)
        if a == 'chp':
            a, ap, b, bp = b, bp, a, ap
        s['conns'] += [[a, ap, 'h', 'water_in'], ['h', 'water_out', b, bp], ['BoundaryCondition', 'BC_g', 'h', 'fluegas_in'],
                       ['BoundaryCondition', 'BC_h', 'h', 'fluegas_out']]
        q.update(wsrc='u', gsrc='BC_g')
        return s, kw, q
    n = nets.Net(r, c['tf'])
    i, o = n.bc('i', round(r.uniform(20, 70), 2)), n.bc('o', 30.0)
    i2, o2 = n.bc('i2', round(r.uniform(75, 98), 2)), n.bc('o2', 50.0)

    def flow(mx, pts):
        return round(mx * r.choice(pts) * r.uniform(0.9, 1.0), 7)
    W = [0.0, 0.02, 0.05, 0.09, 0.11, 0.14, 0.3, 0.5, 0.8, 1.0, 1.3, 2.5]
    G = [0.0, 0.1, 0.22, 0.3, 0.45, 0.6, 0.8, 1.0]
    n.pump('pp', flow(q['wmax'], W))
    n.pump('pq', flow(q['gmax'], G))
    n.part('HEXCondPoly', 'h', **kw, material='carbon_steel', pipe_specs=nets.pspec('DN40'), T_init=round(r.uniform(25, 60), 1), T_amb=n.Tamb)
    n.pipe('a')
    n.chain(i, ('pp', 'in', 'out'), ('h', 'water_in', 'water_out'), ('a',) + n.io(), o)
    n.chain(i2, ('pq', 'in', 'out'), ('h', 'fluegas_in', 'fluegas_out'), o2)
    s = n.s
    s['tfkw'] = dict(max_stepsize=1.0)
    for p in s['parts']:
        if p['t'] == 'PipeWithPump':
            mx, pts = (q['wmax'], W) if p['n'] == 'pp' else (q['gmax'], G)
            p['kw'].update(grid_points=3, length=1.0, pipe_specs=nets.pspec('DN50'), T_init=round(r.uniform(25, 60), 1))
            p['kw'].update(lower_limit=0.0, upper_limit=3 * mx, maximum_flow=3 * mx)
            if r.random() < 0.7:
                p['kw'].pop('const_val')
                x = []
                while len(x) < 200:
                    x += [flow(mx, pts)] * r.choice([1, 2, 5])
                x = x[:200]
                if c['over'] and p['n'] == 'pq':
                    x[5:] = [round(1.2 * mx, 7)] * len(x[5:])
                p['kw'].update(time_series=nets.ts(x, 1.0), start_massflow=x[0])
            elif c['over'] and p['n'] == 'pq':
                p['kw'].update(const_val=round(1.2 * mx, 7), start_massflow=round(1.2 * mx, 7))
    for b in s['bcs']:
        if b['n'] == 'BC_i' and r.random() < 0.5:
            b.update(const=False, T=nets.ts(sum([[round(b['T'] + r.uniform(-8, 8), 2)] * 5 for _ in range(40)], []), 1.0))
    return s, kw, q


def run(c):
    v, r = lib.V(), lib.rng(c['seed'])
    s, kw, q = build(c, r)
    if c['over']:
        try:
            scen.run(s)
        except (ValueError, AssertionError):
            return dict(viol=v, keys=['over'], stats=dict(over=1))
        v.add('over', 'a gas flow of 120 % of the maximum was accepted although the range ends at %g' % q['g'][1])
        return dict(viol=v, keys=['over'], stats=dict(over=1))
    tr = scen.trace(scen.run(s))
    return judge(c, v, s, tr, q)


def judge(c, v, s, tr, q):
    t = tr['t']
    K = len(t)
    X = tr[q.get('hex', 'h')]['res'].reshape(K, 2, 2)
    D = tr[q.get('hex', 'h')]['res_dm'].reshape(K, 2)
    st = dict(outlets=0, beyond=0, below=0, rest=0, exact_in=0, ins=0)
    keys = set()
    sw = q['wmax'], q['gmax']
    fl = D / sw
    # what the exchanger is fed with
    for j, (p, i) in enumerate(((q.get('wsrc', 'pp'), -1), (q.get('gsrc', 'pq'), -1))):
        T = np.full(K, q['gin']) if p not in tr else tr[p]['res'].reshape(K, -1)[:, i]
        e = np.abs(X[2:, 0, j] - T[2:])
        lim = 2e-3 + 2 * np.maximum(np.abs(T[2:] - T[1:-1]), np.abs(np.diff(T, append=T[-1])[2:]))
        st['ins'] += len(e)
        st['exact_in'] += int((e < 1e-3).sum())
        v.chk((e <= lim).all(), 'inlet', lambda: '%s enters with %.9g in step %d, its source has %.9g'
              % (('water', 'gas')[j], X[2 + int(np.argmax(e - lim)), 0, j], 2 + int(np.argmax(e - lim)), T[2 + int(np.argmax(e - lim))]))
        if p in tr:
            f = tr[p]['res_dm'].reshape(K, -1)[:, 0]
            e = np.abs(D[1:, j] - f[1:])
            v.chk((e <= 1e-12).all(), 'flow', lambda: '%s flow %r of the exchanger, %r in %s' % (
                ('water', 'gas')[j], D[1 + int(np.argmax(e)), j], f[1 + int(np.argmax(e))], p))
    if c['mode'] != 'pump':
        # the plant sends the gas of what it burns
        G = tr[q.get('chp', 'chp')]['res_Pgas'].reshape(K, -1)[:, 0] * q['spec'] / 3.6e6
        x, G = D[2:, 1], G[2:]
        st['gas'], st['burning'] = len(x), int((x > 0).sum())
        e = np.abs(x - G) - 1e-6 * G
        v.chk((e <= 1e-12).all(), 'gas', lambda: 'step %d: the plant burns gas for %.9g Nm3/s of flue gas, the exchanger gets %.9g'
              % (2 + int(np.argmax(e)), G[int(np.argmax(e))], x[int(np.argmax(e))]))
    mdl = scen.hexmodel(**q['mdl'])
    for k in range(1, K):
        w, g = fl[k]
        reg, away = '', 0.0
        if w < q['w'][0]:
            if abs(w / q['w'][0] - 0.5) < 1e-6:
                continue
            w, reg = (q['w'][0] if w > q['w'][0] / 2 else 0.0), 'l'
        elif w > q['w'][1]:
            w, away, reg = q['w'][1], w - q['w'][1], 'x'
        if g < q['g'][0]:
            if abs(g / q['g'][0] - 0.5) < 1e-6:
                continue
            g, reg = (q['g'][0] if g > q['g'][0] / 2 else 0.0), reg + 'L'
        a, b = X[k, 0]
        if w == 0 or g == 0:
            y, reg = np.array([a, b]), reg + '0'
            st['rest'] += 1
        elif w > TH:
            y, reg = mdl.predict(np.array([[a, b, w, g]]))[0], reg + 'm'
        else:
            m = mdl.predict(np.array([[a, b, TH, g]]))[0]
            y, reg = m + (b - m) * ((TH - w) / TH) ** 2, reg + 'p'
            st['below'] += 1
        if away:
            x, z = cp(a) * away, cp(y[0]) * w
            away = 2e-4 * abs(a - y[0])  # of the table of heat capacities
            y[0] = (x * a + z * y[0]) / (x + z)
            st['beyond'] += 1
        e = np.abs(y - X[k, 1])
        st['outlets'] += 2
        if not (e <= 1e-6 * (1 + np.abs(y)) + away).all():
            v.add('outlet:' + reg, 'step %d: inlets %r, flows %r (of the maximum): outlets %r instead of %r'
                  % (k, X[k, 0].tolist(), fl[k].tolist(), X[k, 1].tolist(), y.tolist()))
        keys.add('%s d%d i%d b%d %s' % (c['mode'], q['mdl']['degree'], q['mdl'].get('interaction_only', 0), q['mdl'].get('include_bias', 1), reg))
    return dict(viol=v, keys=sorted(keys), stats=st, sample=dict(mode=c['mode'], model=q['mdl'], steps=K - 1, **st))


def finish(results, by_id, stats):
    if len(results) > 40 and min(stats.get(x, 0) for x in ('outlets', 'beyond', 'below', 'rest', 'over', 'burning')) < 3:
        return [dict(key='reach', msg='too few observations: %s' % stats)]
    return []
