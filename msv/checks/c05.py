"""C05: junction mixing and splitting."""
import numpy as np

from .. import lib
from . import c02

RULE = ('one evaluation = one finished simulation in which the balance of every junction was checked in every step; '
        'distinct = (family, junction port states seen: sign of the flow at A, B, C, mixing/splitting)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'a junction may use neighbour temperatures of the beginning or the end of the step; the allowed '
               'difference is the change of these temperatures over two steps, so the check is sharp where they are steady']
FAMS = ['conn3', 'conn3', 'mixloop', 'rnet', 'rnet']


def gen(tier, seed):
    n = 100 if tier == 'quick' else 1200
    out = []
    for i in range(n):
        r = lib.rng('c05', seed, i)
        c = dict(fam=FAMS[i % len(FAMS)], dims=[0, 1][i % 4 == 1], seed='c05_%d_%d' % (seed, i), tf=r.choice([20.0, 60.0]),
                 pk=r.choice(['const', 'const', 'rev', 'rev', 'series', 'zero']), vk=r.choice(['const', 'const', 'ends', 'series']))
        c['tfkw'] = dict(max_stepsize=1.0)
        if c['fam'] == 'rnet':
            c['net'] = dict(kinds=['side', 'bypass', 'vsplit', 'side'])
        c['still'] = i % 2  # every part at its own constant temperature
        out.append(c)
    return out


def settle(spec, r):
    """give every part a uniform temperature equal to its ambient and insulate it well, and the boundary
    ports the temperature of the part they belong to: flows change little and junctions are quasi-steady"""
    for p in spec['parts']:
        if 'T_init' in p['kw']:
            T = round(r.uniform(5, 90), 2)
            p['kw'].update(T_init=T, T_amb=T, insulation_thickness=0.1)
    Ti = {p['n']: p['kw'].get('T_init') for p in spec['parts']}
    for b in spec['bcs']:
        for c in spec['conns']:
            for x, y in ((0, 2), (2, 0)):
                if c[x] == 'BoundaryCondition' and c[x + 1] == b['n'] and Ti.get(c[y]) is not None:
                    b['T'] = Ti[c[y]]


def run(c):
    from .. import ref, scen
    v = lib.V()
    spec = lib.fam_spec(c)
    ps, vs = c02.vary(spec, lib.rng('vary', c['seed']), c['pk'], c['vk'])
    if c['still']:
        settle(spec, lib.rng('settle', c['seed']))
    tr = scen.trace(scen.run(spec))
    return judge(c, v, spec, tr, vs)


def judge(c, v, spec, tr, vs):
    from .. import ref
    t = tr['t']
    fr = ref.FlowRef(spec)
    net = ref.Net(spec)
    keys = set()
    nj = sharp = 0
    PI = {'A': 0, 'B': 1, 'C': 2}

    def nb(j, p, k):
        o, op = net.link[j, p]
        if o == 'BoundaryCondition':
            return net.bc[op]
        if o in net.junc:
            return tr[o]['res'][k][PI[op]]
        return tr[o]['res'][k][net.parts[o].ports[op]]

    def slack(j, p, k, depth=0):
        """how far the intermediate (predictor) value may be off: what the neighbouring cells could bring in"""
        o, op = net.link[j, p]
        if o == 'BoundaryCondition' or depth > 4:
            return 0.0
        if o in net.junc:
            return max(slack(o, q, k, depth + 1) for q in 'ABC' if q != op)
        q = net.parts[o]
        i = q.ports[op]
        T = tr[o]['res'][k - 1]
        return max(abs(T[i] - T[x]) for x in (max(i - 1, 0), min(i + 1, q.n - 1)))

    cache = {}
    for k in range(8, len(t)):
        pump = {p: float(np.ravel(tr[p]['res_dm'][k])[0]) for p in fr.pumps}
        op = {n: c02.at(x, t[k - 1]) for n, x in vs.items()}
        ck = str(pump) + str(op)
        if ck not in cache:
            cache.clear()
            cache[ck] = fr.solve(pump, op)
        fl = cache[ck]
        for j in net.junc:
            dm = {p: fl[j, p] if abs(fl[j, p]) > 1e-12 else 0.0 for p in 'ABC'}
            # tiny flows are direction-ambiguous
            if any(0 < abs(x) < 1e-7 for x in dm.values()):
                continue
            # values pass a chain of junctions with a delay of a step each
            adj = any(net.link[j, p][0] in net.junc for p in 'ABC')
            N = [{p: nb(j, p, q) for p in 'ABC'} for q in range(k - (6 if adj else 2), k + 1)]
            ins = [p for p in 'ABC' if dm[p] > 0]
            outs = [p for p in 'ABC' if dm[p] < 0]
            if not ins:
                continue
            state = j[:1] + ''.join('+' if dm[p] > 0 else '-' if dm[p] < 0 else '0' for p in 'ABC')
            tol = (4 if adj else 2) * max(max(x[p] for x in N) - min(x[p] for x in N) for p in ins)
            tol += max(slack(j, p, k) for p in ins)
            M = sum(dm[p] for p in ins)
            H = sum(dm[p] * ref.cp_w(N[-1][p]) * N[-1][p] for p in ins)
            Tm = sum(dm[p] * N[-1][p] for p in ins) / M
            T1 = H / M / ref.cp_w(Tm)
            T2 = T1
            for _ in range(30):
                T2 = H / M / ref.cp_w(T2)
            tol += 2 * abs(T1 - T2) + 1e-5
            for p in outs:
                T = tr[j]['res'][k][PI[p]]
                nj += 1
                sharp += int(tol < 1e-2)
                keys.add(state + (' sharp' if tol < 1e-2 else ''))
                v.chk(abs(T - T2) <= tol, 'junction:' + state,
                      lambda: 'junction %s step %d: stream leaving at %s has %.9g, entering enthalpy gives %.9g (allowed %.3g); '
                      'flows %s, neighbours %s' % (j, k, p, T, T2, tol, dm, N[-1]))
    return dict(viol=v, keys=[c['fam'] + ' ' + k for k in sorted(keys)],
                stats=dict(junction_outlets=nj, sharp=sharp, steps=len(t) - 1),
                sample=dict(fam=c['fam'], flows=c['pk'], outlets=nj, sharp=sharp, states=sorted(keys)))


def finish(results, by_id, stats):
    if len(results) > 50 and stats.get('sharp', 0) < 1000:
        return [dict(key='reach', msg='too few sharp junction observations: %s' % stats)]
    return []
