"""C02: mass conservation over connections, parts, pumps and valves."""
import numpy as np

from .. import lib, nets

RULE = ('one evaluation = one finished simulation in which every recorded flow of every step was compared with an '
        'independent nodal-balance solution; distinct = (family, flow kinds incl. zero / reversed / varying flows, '
        'valve kind, number of parts)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'three-way connectors and NTU heat exchangers record no flows themselves; they are judged by the '
               'flows of the parts connected to them']

FAMS = ['chain', 'branched', 'tes', 'valve', 'conn3', 'loop', 'mixloop', 'rnet', 'rnet', 'rnet', 'hexe', 'hexu']


def gen(tier, seed):
    n = 300 if tier == 'quick' else 1500
    out = []
    for i in range(n):
        r = lib.rng('c02', seed, i)
        out.append(dict(fam=FAMS[i % len(FAMS)], dims=[0, 2][i % 3 == 1], seed='c02_%d_%d' % (seed, i), tf=r.choice([4.0, 8.0]),
                        pk=r.choice(['const', 'const', 'rev', 'series', 'series', 'zero', 'series_rev']),
                        vk=r.choice(['const', 'const', 'ends', 'series']), tfkw=dict(max_stepsize=0.5)))
        if out[-1]['fam'] == 'valve' and r.random() < 0.5:
            out[-1]['net'] = dict(mode=r.choice(['mixa', 'splitb']))
    return out


def vary(spec, r, pk, vk):
    """change the pumps and valves of a spec; returns (pump series, valve series)"""
    ps, vs = {}, {}
    rng = spec.get('vrange', (0.0, 1.0))  # openings for which the flows are determined
    if spec.get('fam', '').startswith('hex') and 'rev' in pk:
        pk = 'const'
    for p in spec['parts']:
        kw = p['kw']
        if p['t'] == 'PipeWithPump':
            dm = kw['const_val']
            k = pk if r.random() < 0.7 else 'const'
            if k == 'rev':
                # pump the other way round by swapping its ports
                if spec['fam'].split('_')[0] in ('chain', 'branched', 'tes', 'conn3', 'loop'):
                    swap(spec, p['n'])
            elif k == 'zero':
                dm = 0.0
            elif k.startswith('series'):
                lo = -1.0 if k == 'series_rev' else 0.0
                v = [round(dm * r.uniform(lo, 1.0), 6) if r.random() > 0.2 else 0.0 for _ in range(100)]
                ps[p['n']] = v
                del kw['const_val']
                kw['time_series'] = nets.ts(v, 1.0)
                kw['start_massflow'] = max(v[0], 0.0)
                continue
            kw['const_val'] = kw['start_massflow'] = dm
            ps[p['n']] = dm
        elif p['t'] == 'PipeWith3wValve':
            k = vk
            if k == 'ends':
                kw['const_val'] = kw['start_portA_opening'] = rng[r.choice([0, 1])]
            elif k == 'series':
                v = [round(r.uniform(*rng), 4) if r.random() > 0.2 else r.choice(rng) for _ in range(100)]
                vs[p['n']] = v
                del kw['const_val']
                kw['time_series'] = nets.ts(v, 1.0)
                kw['start_portA_opening'] = v[0]
                continue
            vs[p['n']] = kw['const_val']
    return ps, vs


def swap(spec, n):
    m = {'in': 'out', 'out': 'in'}
    for c in spec['conns']:
        for j in (0, 2):
            if c[j] == n:
                c[j + 1] = m[c[j + 1]]


def at(v, t):
    return np.interp(t, np.arange(len(v), dtype=float), v) if isinstance(v, list) else v


def run(c):
    from .. import ref, scen
    v = lib.V()
    spec = lib.fam_spec(c)
    ps, vs = vary(spec, lib.rng('vary', c['seed']), c['pk'], c['vk'])
    fr = ref.FlowRef(spec)
    s = scen.run(spec)
    tr = scen.trace(s)
    t = tr['t']
    T = {p['n']: p for p in spec['parts']}
    geo = {n: ref.Part(p) for n, p in T.items() if p['t'] in ('PipeBranched', 'Tes', 'PipeWith3wValve')}
    nf = 0
    seen = set()
    cache = {}
    for k in range(1, len(t)):
        pump = {}
        for n in ps:
            pump[n] = float(np.ravel(tr[n]['res_dm'][k])[0])
            want = at(ps[n], t[k - 1])
            seen.add(n[0] + ('+' if pump[n] > 0 else '-' if pump[n] < 0 else '0'))
            if isinstance(ps[n], list):
                v.chk(abs(pump[n] - want) <= 1e-9 + 1e-6 * max(map(abs, ps[n])), 'pump_series',
                      lambda: 'pump %s carries %r instead of its set %r at step %d' % (n, pump[n], want, k))
            else:
                v.chk(pump[n] == want, 'pump', lambda: 'pump %s carries %r instead of %r (step %d)' % (n, pump[n], want, k))
        op = {n: at(x, t[k - 1]) for n, x in vs.items()}
        ck = str(pump) + str(op)
        if ck not in cache:
            cache.clear()
            cache[ck] = fr.solve(pump, op)
            if fr.rank_def or fr.inconsistency > 1e-9:
                raise RuntimeError('spec not determined')
        fl = cache[ck]
        sc = 1e-9 + 1e-6 * max([abs(x) for x in pump.values()] + [0.0])
        if any(isinstance(x, list) for x in vs.values()):
            sc += 1e-6 * max(abs(x) for x in pump.values())
        for n, p in T.items():
            if p['t'] in ('Connector3w', 'HeatExchanger'):
                continue
            a = np.ravel(tr[n]['res_dm'][k])
            if n in geo:
                f = fr.faces(n, fl, geo[n].n, geo[n].ports)
                e = np.abs(a[:-1] - f).max() if len(a) == len(f) + 1 else np.inf
            elif p['t'] == 'HexNum':
                e = max(abs(a[0] - fl[n, 'sup_in']), abs(a[1] + fl[n, 'dmd_in']))
            else:
                e = abs(a[0] - fl[n, 'in'])
            nf += len(a)
            v.chk(e <= sc, 'flow:' + p['t'], lambda: 'flow of %s (%s) at step %d differs by %.3g: recorded %s' % (
                n, p['t'], k, e, a[:6]))
    for n in geo:  # flows into the ports of a part at the end
        x = np.ravel(s.parts[n]._dm_io)
        v.chk(abs(x.sum()) <= 1e-9 + 1e-6 * np.abs(x).sum(), 'ports:' + T[n]['t'], lambda: 'flows %s into the ports of %s do not sum up to zero' % (x, n))
    return dict(viol=v, keys=['%s %s %s %s %s' % (c['fam'], c['pk'], c['vk'] if vs else '', ''.join(sorted(seen)), len(T))],
                stats=dict(flows=nf, steps=len(t) - 1, nets_with_reversal=int(any('-' in x for x in seen)),
                           nets_with_zero=int(any('0' in x for x in seen)), valves=len(vs),
                           junctions=sum(p['t'] == 'Connector3w' for p in spec['parts'])),
                sample=dict(fam=c['fam'], pumps={k: (x if not isinstance(x, list) else x[:4]) for k, x in ps.items()},
                            steps=len(t) - 1, flows_compared=nf))
