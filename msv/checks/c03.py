"""C03: heat balance of every finite volume in every step."""
import numpy as np

from .. import lib, nets
from . import c02

RULE = ('one evaluation = one finished simulation whose steps were replayed cell by cell with an independent '
        'finite-volume model; distinct = (family, parts, flow kinds seen, flow regimes seen)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'the heat exchange with the ambient is known to about 5 % (the film state of the previous evaluation '
               'enters it); all other terms are compared to rounding']
FAMS = ['chain', 'branched', 'tes', 'valve', 'conn3', 'loop', 'mixloop', 'rnet']


def gen(tier, seed):
    n = 88 if tier == 'quick' else 1200
    out = []
    for i in range(n):
        r = lib.rng('c03', seed, i)
        c = dict(fam=FAMS[i % len(FAMS)], dims=[0, 2][i % 5 in (1, 3)], seed='c03_%d_%d' % (seed, i), tf=r.choice([15.0, 30.0, 60.0]),
                 pk=r.choice(['const', 'const', 'const', 'rev', 'series', 'zero', 'series_rev']),
                 vk=r.choice(['const', 'const', 'ends', 'series']))
        c['tfkw'] = dict(max_stepsize=1.0, rtol=r.choice([1e-2, 1e-3]), atol=r.choice([1e-2, 1e-3]))
        if c['fam'] == 'rnet':
            c['net'] = dict(sep=True)
        if c['fam'] == 'valve' and r.random() < 0.4:
            c['net'] = dict(mode=r.choice(['mixa', 'splitb']))
        c['kmax'] = 160 if tier == 'quick' else 500
        out.append(c)
    return out


def run(c):
    from .. import ref, scen
    v = lib.V()
    spec = lib.fam_spec(c)
    ps, vs = c02.vary(spec, lib.rng('vary', c['seed']), c['pk'], c['vk'])
    s = scen.run(spec)
    tr = scen.trace(s)
    rep = ref.Replay(spec, opening=lambda k: {n: c02.at(x, tr['t'][k - 1]) for n, x in vs.items()})
    return judge(c, v, spec, tr, rep, ps)


def judge(c, v, spec, tr, rep, ps):
    nc = 0
    worst = 0.0
    exact = {}
    flat = {}
    mixed = np.zeros(len(tr['t']), dtype=bool)
    for p in rep.net.parts:
        dm = tr[p]['res_dm'].reshape(len(tr['t']), -1)
        if dm.shape[1] > 1:
            mixed |= ~((dm > 0).all(axis=1) | (dm < 0).all(axis=1))
    for k, p, a, b, tol, sc, _ in rep.steps(tr, kmax=c['kmax']):
        if p in c.get('skip', ()):
            continue
        e = np.abs(a - b)
        num = 2e-9 * (1 + np.abs(a))
        q = rep.net.parts[p]
        if type(q).__name__ == 'Hex':  # C13 decides the exchanger, here it is part of a plant
            near, q.near = q.near, False
            if q.impl and (near or not q.conv):
                continue
            dm = tr[p]['res_dm'].reshape(len(tr['t']), -1)
            num = (5e-8 if not q.impl else 2e-6) * (1 + np.abs(a)) + (3e-2 if k < 8 or (dm[k - 3:k] != dm[k]).any() else 0)
        if k <= 5:
            # start-up of the film state: bounded by a generous total loss
            q = rep.net.parts[p]
            h = tr['t'][k] - tr['t'][k - 1]
            lim = num + 2 * tol + h * 10 * (q.At + (q.A if q.tes else 0)) * (np.abs(q.Ta - a).max() + 0.1) / q.mcp(a)
        else:
            # with flows of different direction in one pipe the inlet length of the film coefficient is ambiguous
            mix = bool(mixed[k])
            lim = num + (0.3 if mix else 0.05) * sc + 2 * tol + 0.004 * sc.max()
            if not mix:
                x = exact.setdefault(p, [0, 0])
                x[0] += int((e <= num + 1e-3 * sc.max() + 2 * tol).all())
                x[1] += 1
        nc += len(e)
        if not (e <= lim).all():
            i = int(np.nanargmax(e - lim)) if np.isfinite(e).all() else int(np.argmin(np.isfinite(e)))
            v.add('cell:' + flat.setdefault(p, typ(spec, p)),
                  '%s (%s) cell %d/%d at step %d (h=%.4g): recorded %.12g, balance gives %.12g (difference %.3g, allowed %.3g)'
                  % (p, typ(spec, p), i, len(a), k, tr['t'][k] - tr['t'][k - 1], b[i], a[i], e[i], lim[i]))
        worst = max(worst, float((e / np.maximum(lim, 1e-300)).max()))
    for p, (a, b) in exact.items():
        v.chk(b < 20 or a > 0.6 * b, 'systematic:' + typ(spec, p),
              lambda: '%s: only %d of %d steps reproduced exactly' % (p, a, b))
    kinds = sorted({typ(spec, p['n']) for p in spec['parts']})
    return dict(viol=v, keys=['%s %s %s %s' % (c['fam'], '+'.join(kinds), c['pk'], c['vk'])],
                stats=dict(cells=nc, steps=len(tr['t']) - 1, max_rel_to_bound=worst,
                           part_steps_exact=sum(x[0] for x in exact.values()),
                           part_steps=sum(x[1] for x in exact.values())),
                sample=dict(fam=c['fam'], parts=kinds, steps=len(tr['t']) - 1, cells_compared=nc, worst=worst))


def typ(spec, n):
    for p in spec['parts']:
        if p['n'] == n:
            return p['t']
