"""C04: temperature envelope and equilibrium."""
import numpy as np

from .. import lib, nets
from . import c02

RULE = ('one evaluation = one finished source-free simulation whose every recorded temperature was checked against the '
        'envelope of initial, boundary and ambient temperatures (or against the common value); distinct = (family, '
        'kind, flow kinds, whether the envelope was approached)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25']
FAMS = ['chain', 'branched', 'tes', 'valve', 'conn3', 'loop', 'mixloop', 'rnet', 'hexe', 'hexu', 'rnet']


def gen(tier, seed):
    n = 143 if tier == 'quick' else 1800
    out = []
    for i in range(n):
        r = lib.rng('c04', seed, i)
        c = dict(fam=FAMS[i % len(FAMS)], dims=[0, 2][i % 4 == 1], seed='c04_%d_%d' % (seed, i), tf=r.choice([10.0, 30.0, 90.0]),
                 kind=r.choice(['env', 'env', 'eq']),
                 pk=r.choice(['const', 'const', 'rev', 'series', 'zero', 'series_rev']),
                 vk=r.choice(['const', 'ends', 'series']))
        c['tfkw'] = dict(rtol=10 ** r.uniform(-4, -2), atol=10 ** r.uniform(-4, -2))
        if r.random() < 0.3:
            c['tfkw']['max_stepsize'] = r.choice([0.3, 2.0])
        if i % 3 == 2:  # coarse tolerances: only the stability limit keeps the steps small
            c.update(tf=r.choice([30.0, 100.0]), pk=r.choice(['const', 'rev', 'zero']), vk=r.choice(['const', 'ends']),
                     tfkw=dict(rtol=0.9, atol=0.9, max_speed=r.random() < 0.5), coarse=1, kind='env', dims=0, fam=r.choice(['thin', 'thin', 'thin', 'rnet', 'valve', 'branched', 'hexe', 'mixloop']))
            if c['fam'] == 'rnet':  # buoyancy needs fine tolerances
                c['net'] = dict(kinds=['pipe', 'side', 'branched', 'bypass', 'vsplit'])
            if c['fam'] == 'thin':
                c.update(pk='const', vk='const')
        out.append(c)
    for i in range(2 if tier == 'quick' else 24):
        out.append(dict(fam='hexi', seed='c04i_%d_%d' % (seed, i), tf=10.0, kind=['env', 'eq'][i % 2], pk='const',
                        vk='const', tfkw=dict(rtol=1e-3, atol=1e-3), w=8))
    return out


def focus(spec, r):
    """enlarge all parts but one: the stability of this part alone limits the steps"""
    ok = ('Pipe', 'PipeWithPump', 'PipeBranched', 'PipeWith3wValve', 'HeatedPipe')
    q = r.choice([p['n'] for p in spec['parts'] if p['t'] in ok])
    for p in spec['parts']:
        if p['n'] != q and p['t'] in ok:
            p['kw']['pipe_specs'] = {'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN150'}}
            p['kw']['length'] *= 5


def temps(spec, f=None):
    """all temperatures which can feed the network; f: replace them"""
    out = []
    for p in spec['parts']:
        for k in ('T_init', 'T_amb'):
            if k in p['kw']:
                x = p['kw'][k]
                if f is not None:
                    p['kw'][k] = f
                out += x['__nd__'] if isinstance(x, dict) else [x]
    for b in spec['bcs']:
        if f is not None:
            b['T'] = f
        out.append(b['T'])
    return out


def run(c):
    from .. import scen
    v = lib.V()
    spec = lib.fam_spec(c)
    c02.vary(spec, lib.rng('vary', c['seed']), c['pk'], c['vk'])
    r = lib.rng('T', c['seed'])
    junc = [p['n'] for p in spec['parts'] if p['t'] == 'Connector3w']
    if c.get('coarse') and c['fam'] != 'thin' and r.random() < 0.8:
        focus(spec, lib.rng('focus', c['seed']))
    if c['kind'] == 'eq':
        T0 = round(r.uniform(2, 95), 2)
        temps(spec, T0)
        lo = hi = T0
    else:
        ts = temps(spec)
        lo, hi = min(ts), max(ts)
    s = scen.run(spec)
    tr = scen.trace(s)
    kw = c['tfkw']
    nT = 0
    reach = 0
    ov = 0.0
    for p in spec['parts']:
        T = tr[p['n']]['res'].reshape(len(tr['t']), -1)
        if p['n'] in junc:
            # a junction starts without a temperature of its own
            T = T[1:]
        nT += T.size
        v.chk(np.isfinite(T).all(), 'finite', lambda: '%s has non-finite temperatures' % p['n'])
        o = max(float(T.max()) - hi, lo - float(T.min()), 0.0) if T.size else 0.0
        if c['kind'] == 'eq':
            tol = 1e-8 * (1 + abs(hi))
        else:
            tol = 1e-6 + 0.02 * (kw['rtol'] * max(abs(hi), abs(lo)) + kw['atol'])
            if not spec.get('impl'):  # stable explicit steps do not overshoot at all
                # (cooling at the top of a storage causes buoyancy, which changes within a step)
                tol = min(tol, 2e-5 * (1 + abs(hi)) if c['fam'] != 'thin' else 0.03)
            reach += int(T.max() > hi - 0.1) + int(T.min() < lo + 0.1)
        ov = max(ov, o / tol)
        if o > tol:
            k, j = np.unravel_index(np.argmax(np.maximum(T - hi, lo - T)), T.shape)
            v.add(c['kind'] + ':' + p['t'], '%s (%s) cell %d at row %d is %.9g, outside [%.6g, %.6g] by %.3g (allowed %.3g)' % (
                p['n'], p['t'], j, k, T[k, j], lo, hi, o, tol))
    return dict(viol=v, keys=['%s %s %s %s %d' % (c['fam'], c['kind'], c['pk'], c['vk'], min(reach, 3))],
                stats=dict(temperatures=nT, envelope_reached=reach, max_overshoot_rel=ov, equilibrium_runs=int(c['kind'] == 'eq')),
                sample=dict(fam=c['fam'], kind=c['kind'], lo=lo, hi=hi, steps=len(tr['t']) - 1, worst_over_tolerance=ov))
