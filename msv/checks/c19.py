"""C19: results depend on the description only."""
import copy
import hashlib
import json
import os
import subprocess
import sys

import numpy as np

from .. import lib, nets

RULE = ('one evaluation = one network simulated once as described and once repeated beside other environments, in another process, or with '
        'the same description permuted, renamed, with swapped connection ends or with pipes turned round; distinct = (network, '
        'transformation, stepping)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'repeated runs have to agree bit for bit; transformed descriptions up to rounding while the step size is fixed, and up to the '
               'error control of the solver while it is adapted (the retries of the first step depend on the order of the parts)']

KIND = ['order', 'rename', 'ends', 'mirror', 'all', 'repeat', 'beside', 'hash']


def gen(tier, seed):
    n = 96 if tier == 'quick' else 1200
    fams = ['chain', 'branched', 'tes', 'valve', 'conn3', 'loop', 'mixloop', 'heated', 'rnet', 'rnet', 'hexu', 'hexi', 'ctrl', 'ctrl']
    out = []
    for i in range(n):
        k = KIND[i % len(KIND)]
        if k == 'hash' and i % 16 > 8:
            k = 'all'
        f = fams[(i // 3) % len(fams)]
        if k == 'mirror':
            f = ['chain', 'rnet', 'loop', 'conn3', 'branched', 'tes'][(i // len(KIND)) % 6]
        fix = i % 3 != 2
        out.append(dict(fam=f, kind=k, fixed=fix, seed='c19_%d_%d' % (seed, i), tf=2.0 if fix and f != 'ctrl' else 6.0, w=1))
    return out


def spec(c, r):
    if c['fam'] == 'ctrl':
        from . import c12
        s = c12.build(dict(kind=r.choice(['ctrl', 'ctrl', 'part', 'dead']), tf=c['tf']), r)[0]
    else:
        s = lib.fam_spec(c)
    s['tfkw'] = dict(max_stepsize=(0.01 if c['fam'] != 'ctrl' else 0.03) if c['fixed'] else r.choice([100.0, 1.0]))
    return s


NAMES = ['in', 'out', 'a', 'aa', 'ab', 'A', 'B', 'AB', 'p', 'p1', 'p11', 'p_1', 'pipe', 'pipe_in', 'res', 'dm', 'T', 'x9', 'Pump',
         'pump', 'tes', 'z', 'zz', 'x1', 'x10', 'x2']


def rename(s, r):
    """new names for all parts, boundaries and controllers"""
    pool = NAMES[:]
    r.shuffle(pool)
    m = {p['n']: pool.pop() for p in s['parts']}
    mb = {b['n']: 'BC_' + pool.pop() for b in s['bcs']}
    mc = {k['n']: 'c_' + pool.pop() for k in s.get('ctrls', [])}
    full = dict(m, **mb, **mc)

    def sub(o):
        if isinstance(o, dict):
            return {k: sub(x) for k, x in o.items()}
        if isinstance(o, list):
            return [sub(x) for x in o]
        return full.get(o, o) if isinstance(o, str) else o
    s2 = copy.deepcopy(s)
    s2['parts'] = [dict(p, n=m[p['n']], kw={k: (x if k in ('pipe_specs', 'material', 'hexdb') else sub(x)) for k, x in p['kw'].items()})
                   for p in s2['parts']]
    s2['bcs'] = [dict(b, n=mb[b['n']]) for b in s2['bcs']]
    s2['conns'] = [[m.get(a, a), mb.get(pa, pa), m.get(b, b), mb.get(pb, pb)] for a, pa, b, pb in s2['conns']]
    if 'ctrls' in s2:
        s2['ctrls'] = [dict(k, n=mc[k['n']], kw={a: (full.get(x, x) if a in REFS and isinstance(x, str) else x) for a, x in k['kw'].items()})
                       for k in s2['ctrls']]
    s2['dyn'] = [sub(d) for d in s2.get('dyn', [])]
    return s2, m


REFS = ('actuator', 'controlled_part', 'reference_part', 'master_controller', 'master_part')


def mirror(s, r, ctl):
    """turn some plain pipes round"""
    P = [p['n'] for p in s['parts'] if p['t'] == 'Pipe' and p['n'] not in ctl]
    P = [p for p in P if r.random() < 0.7] or P[:1]
    s2 = copy.deepcopy(s)
    for p in s2['parts']:
        if p['n'] in P:
            T = p['kw'].get('T_init')
            if isinstance(T, dict):
                p['kw']['T_init'] = {'__nd__': T['__nd__'][::-1]}
            elif isinstance(T, list):
                p['kw']['T_init'] = T[::-1]
    sw = {'in': 'out', 'out': 'in'}
    for q in s2['conns']:
        for j in range(0, len(q), 2):
            if q[j] in P:
                q[j + 1] = sw[q[j + 1]]
    return s2, P


def digest(tr):
    h = hashlib.sha256()
    for k in sorted(tr):
        x = tr[k]
        for kk, y in sorted(x.items()) if isinstance(x, dict) else [('', x)]:
            h.update(('%s.%s%s' % (k, kk, y.shape)).encode())
            h.update(np.ascontiguousarray(y).tobytes())
    return h.hexdigest()


def other_process(s, hs):
    code = ('import sys,json;sys.path.insert(0,%r)\nimport warnings;warnings.simplefilter("ignore")\n'
            'from msv import scen\nfrom msv.checks import c19\ns=json.load(sys.stdin)\nprint("DIGEST",c19.digest(scen.trace(scen.run(s))))'
            % os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    env = dict(os.environ, PYTHONHASHSEED=str(hs), NUMBA_DISABLE_JIT='1')
    p = subprocess.run([sys.executable, '-c', code], input=json.dumps(s), capture_output=True, text=True, env=env, timeout=200)
    for l in p.stdout.splitlines():
        if l.startswith('DIGEST'):
            return l.split()[1]
    raise RuntimeError('other process failed: ' + p.stderr[-600:])


def compare(v, c, a, b, m, flip, ctx):
    """traces of the same network; m: new part names; flip: parts turned round"""
    ta, tb = a['t'], b['t']
    ha = np.diff(ta)
    fixed = c['fixed'] and len(ha) and np.ptp(ha[:-1]) <= 1e-9 * ha[0] if len(ha) > 1 else c['fixed']
    nv, worst = 0, 0.0
    if fixed:
        if not v.chk(ta.shape == tb.shape and np.abs(ta - tb).max() <= 1e-9, c['kind'] + ' times',
                     lambda: '%s: %d steps until %.9g s became %d steps until %.9g s' % (ctx, len(ta) - 1, ta[-1], len(tb) - 1, tb[-1])):
            return 0, 0.0, fixed
    else:
        v.chk(abs(len(ta) - len(tb)) <= 2 + 0.1 * len(ta), c['kind'] + ' steps', lambda: '%s: %d steps became %d' % (ctx, len(ta) - 1, len(tb) - 1))
    for p in a:
        if p in ('t', 'dtv'):
            continue
        x, y = a[p], b[m.get(p, p)]
        for k in x:
            z, w = x[k], y[k]
            if p in flip and k == 'res':
                w = w[:, ::-1]
            if p in flip and k == 'res_dm':
                w = -w
            if z.shape[1:] != w.shape[1:]:
                v.add(c['kind'], '%s: %s.%s has shape %s instead of %s' % (ctx, p, k, w.shape, z.shape))
                continue
            if fixed:
                tol = 1e-8 * (1 + np.abs(z))
                d = np.abs(z - w)
            else:
                if k != 'res':
                    continue
                z, w = z.reshape(len(ta), -1), w.reshape(len(tb), -1)
                g = np.linspace(0, min(ta[-1], tb[-1]), 80)
                z = np.array([np.interp(g, ta, z[:, j]) for j in range(z.shape[1])])
                w = np.array([np.interp(g, tb, w[:, j]) for j in range(w.shape[1])])
                d = np.abs(z - w)
                tol = np.full(d.shape, 0.3 + 0.1 * np.ptp(z))
            nv += d.size
            worst = max(worst, float(d.max()) if d.size else 0.0)
            if not (d <= tol).all():
                j = np.unravel_index(int(np.argmax(d - tol)), d.shape)
                v.add(c['kind'], '%s: %s.%s at %s is %.12g instead of %.12g' % (ctx, p, k, j, w[j], z[j]))
    return nv, worst, fixed


def run(c):
    from .. import scen
    v, r = lib.V(), lib.rng(c['seed'], 'k')
    s = spec(c, r)
    k = c['kind']
    nv, worst, fixed = 0, 0.0, c['fixed']
    if k == 'repeat':
        a = scen.trace(scen.run(s))
        o = lib.fam_spec(dict(fam=r.choice(['chain', 'tes', 'valve', 'conn3']), seed=c['seed'] + 'o', tf=2.0))
        scen.run(o)
        b = scen.trace(scen.run(s))
        d = lib.diff_traces(a, b)
        v.chk(d is None, k, lambda: 'second run of the same description: %s' % d)
        nv = sum(x['res'].size for p, x in a.items() if p not in ('t', 'dtv'))
    elif k == 'beside':
        a = scen.trace(scen.run(s))
        o = lib.fam_spec(dict(fam=r.choice([c['fam'] if c['fam'] != 'ctrl' else 'heated', 'tes', 'valve', 'conn3']), seed=c['seed'] + 'o', tf=2.0))
        with scen.quiet():
            e1 = scen.build(s)
            e2 = scen.build(o)
            scen.init(e2, o)
            scen.init(e1, s)
            e3 = scen.build(o)
            e2.start_sim()
            scen.init(e3, o)
            e1.start_sim()
            e3.start_sim()
        d = lib.diff_traces(a, scen.trace(e1))
        v.chk(d is None, k, lambda: 'run beside other environments: %s' % d)
        d2 = lib.diff_traces(scen.trace(e2), scen.trace(e3))
        v.chk(d2 is None, k, lambda: 'two environments of the same description set up alternately: %s' % d2)
        nv = sum(x['res'].size for p, x in a.items() if p not in ('t', 'dtv'))
    elif k == 'hash':
        x, y = other_process(s, r.randint(0, 10 ** 6)), other_process(s, r.randint(0, 10 ** 6))
        z = digest(scen.trace(scen.run(s)))
        v.chk(x == y == z, k, lambda: 'runs in other processes differ (%s, %s, here %s)' % (x[:8], y[:8], z[:8]))
        nv = 3
    else:
        a = scen.trace(scen.run(s))
        m, flip, s2 = {}, (), s
        ctl = set()
        for q in s.get('ctrls', []):
            ctl |= {x for x in q['kw'].values() if isinstance(x, str)}
        if k in ('mirror', 'all'):
            s2, flip = mirror(s2, r, ctl)
        if k in ('ends', 'all'):
            s2 = dict(s2, conns=[(q[2:] + q[:2]) if r.random() < 0.6 else q for q in s2['conns']])
        if k in ('rename', 'all'):
            s2, m = rename(s2, r)
        if k in ('order', 'all'):
            n = sum(len(s2.get(x, [])) for x in ('parts', 'bcs', 'conns', 'ctrls'))
            o = list(range(n))
            r.shuffle(o)
            # a master has to be declared before its sub-controller
            lo = n - len(s2.get('ctrls', []))
            at = [j for j, x in enumerate(o) if x >= lo]
            for j, x in zip(at, sorted(o[j] for j in at) if any('master_controller' in q['kw'] for q in s2.get('ctrls', [])) else [o[j] for j in at]):
                o[j] = x
            s2 = dict(s2, order=o)
        b = scen.trace(scen.run(s2))
        nv, worst, fixed = compare(v, c, a, b, m, flip, '%s, %s' % (c['fam'], k))
    return dict(viol=v, keys=['%s %s %d' % (c['fam'], k, fixed)], stats=dict(values=nv, fixed_runs=int(fixed), max_difference=worst),
                sample=dict(c, values=nv, worst=worst))
