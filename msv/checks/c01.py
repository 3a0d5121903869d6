"""C01: time axis and step limits."""
import shutil

import numpy as np

from .. import lib, nets

RULE = ('one evaluation = one finished simulation with randomised network and step settings whose '
        'complete step history was monitored; distinct = (family, binned settings, set of observed step '
        'kinds: growth-limited, max-limited, min-limited, shrinking)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25']


def gen(tier, seed):
    n = 80 if tier == 'quick' else 900
    out = []
    fams = list(nets.FAM)
    for i in range(n):
        r = lib.rng('c01', seed, i)
        c = dict(fam=fams[i % len(fams)], seed='c01_%d_%d' % (seed, i), disk=(i % 5 == 0))
        kind = r.choice(['free', 'free', 'max', 'min', 'grow', 'grow', 'iso'])
        c['kind'] = kind
        tf = r.choice([1.0, 7.5, 30.0, 30.0, 60.0, 61.3])
        kw = dict(rtol=10 ** r.uniform(-5, -1.5), atol=10 ** r.uniform(-7, -2.5))
        if r.random() < 0.5:
            kw['max_factor'] = r.choice([1.05, 1.3, 2, 2.5, 4.0, 8])
        if r.random() < 0.3:
            kw['min_factor'] = r.choice([0.1, 0.3, 0.6])
        if r.random() < 0.3:
            kw['safety_factor'] = r.choice([0.5, 0.8, 0.95])
        if r.random() < 0.6:
            kw['factor_recovery'] = r.choice([1, 3, 10, 20.5, 50])
        if kind == 'max':
            kw['max_stepsize'] = r.choice([0.05, 0.2, 0.35, 1, 1.5])
            tf = min(tf, 200 * kw['max_stepsize'])
        elif kind == 'min':
            kw.update(rtol=1e-9, atol=1e-9, min_stepsize=r.choice([0.01, 0.02]))
            tf = 4.0
        elif kind == 'grow':
            # quiet nets: long phases of growth
            c['net'] = dict(tlo=20.0, thi=20.0 + 10 ** r.uniform(-3, 0.5))
            kw.update(rtol=10 ** r.uniform(-3, -1.5), atol=1e-3)
            kw['max_factor'] = r.choice([1.05, 1.2, 1.5, 2])
            kw['factor_recovery'] = r.choice([1, 2, 5, 20])
        elif kind == 'iso':
            # no temperature difference anywhere: error estimates of (almost) zero
            c['net'] = dict(tlo=20.0, thi=20.0)
            kw.update(max_stepsize=r.choice([0.3, 0.7, 1.5, 4.0]))
            tf = r.choice([20.0, 61.3])
        c['tf'], c['tfkw'] = tf, kw
        if kind == 'grow':
            c['tf'] = r.choice([60.0, 120.0])
        out.append(c)
    return out


def run(c):
    from .. import scen
    import pandas as pd
    v = lib.V()
    kw = c['tfkw']
    cc = {k: x for k, x in c.items() if k != 'net'}
    spec = lib.fam_spec(cc)
    if 'net' in c:
        squeeze(spec, c['net']['tlo'], c['net']['thi'])
    d = None
    if c['disk']:
        spec['disk'], d = lib.disk()
    s = scen.run(spec)
    tr = scen.trace(s)
    t = tr['t']
    h = np.diff(t)
    tf = spec['tf']
    eps = 1e-9
    v.chk(t[0] == 0.0, 'start', lambda: 'time axis starts at %r' % t[0])
    v.chk((h > 0).all(), 'order', lambda: 'times not strictly increasing at row %d' % int(np.argmin(h)))
    v.chk(np.isfinite(t).all(), 'finite', 'time not finite')
    v.chk(t[-1] >= tf, 'end', lambda: 'ends at %r before %r' % (t[-1], tf))
    v.chk(len(t) < 2 or t[-2] < tf, 'overrun', lambda: 'simulated past the time frame: %r >= %r' % (t[-2], tf))
    for n, p in s.parts.items():
        v.chk(len(p.res) == len(t) and len(p.res_dm) == len(t), 'rows',
              lambda: '%s has %d/%d rows for %d times' % (n, len(p.res), len(p.res_dm), len(t)))
    v.chk(len(tr['dtv']) == len(t), 'rows', 'time step vector length')
    if len(tr['dtv']) == len(t) and len(t) > 1:
        v.chk(lib.maxabs(tr['dtv'][:-1] - h) <= 1e-9, 'steps', 'recorded step lengths differ from the times')
    mx = float(kw.get('max_stepsize', 100.0))
    mn = float(kw.get('min_stepsize', 1e-8))
    mf = float(kw.get('max_factor', 2.0))
    tol = eps + 1e-12 * t[-1]
    if h.size:
        v.chk(h.max() <= mx * (1 + eps) + tol, 'max_step',
              lambda: 'step %d is %r > max_stepsize %r' % (int(h.argmax()), h.max(), mx))
        v.chk(h.min() >= mn * (1 - eps) - tol, 'min_step',
              lambda: 'step %d is %r < min_stepsize %r' % (int(h.argmin()), h.min(), mn))
    g = h[1:] - mf * h[:-1]
    if g.size:
        v.chk((g <= tol * (1 + mf)).all(), 'growth',
              lambda: 'step %d grew by %.6g > max_factor %r' % (
                  int(g.argmax()) + 1, h[1:][g.argmax()] / h[:-1][g.argmax()], mf))
    if d:
        df = s.return_stored_data()
        want = pd.Timestamp(lib.START) + pd.to_timedelta(t, unit='s')
        for n in list(s.parts) + ['sim_vecs']:
            for tab in (df[n].values() if isinstance(df[n], dict) else [df[n]]):
                ok = len(tab) == len(want) and np.abs((tab.index - want).total_seconds()).max() < 1e-6
                v.chk(ok, 'index', lambda: 'time index of stored %s is not start date plus time' % n)
        shutil.rmtree(d, ignore_errors=True)
    kinds = []
    if h.size:
        kinds = ['max' if h.max() >= mx * (1 - eps) else '', 'min' if h.min() <= mn * (1 + eps) else '',
                 'grow' if g.size and (np.abs(g) < 1e-9).any() else '', 'shrink' if (np.diff(h) < 0).any() else '']
    return dict(viol=v, keys=['%s %s %s %s' % (c['fam'], c['kind'], lib.sig(mf, 2), ''.join(k[:2] for k in kinds))],
                stats=dict(steps=len(h), steps_at_max=int((h >= mx * (1 - eps)).sum()),
                           steps_at_min=int((np.abs(h - mn) < 1e-9).sum()),
                           growth_limited=int((np.abs(g) < 1e-9).sum()) if g.size else 0,
                           disk_runs=int(bool(d))),
                sample=dict(fam=c['fam'], tf=tf, settings=kw, steps=len(h), h_min=float(h.min()), h_max=float(h.max())))


def squeeze(spec, lo, hi):
    """map all temperatures of a spec linearly into [lo, hi]"""
    def f(x):
        return lo + (hi - lo) * (x + 5.0) / 100.0
    for p in spec['parts']:
        for k in ('T_init', 'T_amb'):
            if k in p['kw']:
                x = p['kw'][k]
                p['kw'][k] = {'__nd__': [f(y) for y in x['__nd__']]} if isinstance(x, dict) else f(x)
    for b in spec['bcs']:
        b['T'] = f(b['T'])


def finish(results, by_id, stats):
    if len(results) > 40 and not (stats.get('steps_at_max') and stats.get('steps_at_min') and stats.get('growth_limited')):
        return [dict(key='reach', msg='monitor reached no max/min/growth limited steps: %s' % stats)]
    return []
