"""C13: heat exchangers."""
import numpy as np

from .. import lib, nets

RULE = ('one evaluation = one finished simulation of a heat exchanger between two circuits; numeric exchangers are '
        'replayed cell by cell, steady-state exchangers are judged step by step; distinct = (kind, geometry variant, '
        'flow kinds, flow regimes seen, which side is hotter)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'implicitly solved exchangers are judged in steps in which no channel is within 3 % of the '
               'laminar/turbulent transition (see the known finding), explicit ones always']
KINDS = ['ntu', 'ntu', 'ntu', 'expl', 'expl', 'impl']


def gen(tier, seed):
    n = 120 if tier == 'quick' else 1500
    out = []
    for i in range(n):
        r = lib.rng('c13', seed, i)
        k = KINDS[i % len(KINDS)]
        out.append(dict(kind=k, seed='c13_%d_%d' % (seed, i), tf=r.choice([10.0, 20.0, 40.0]) if k == 'ntu' else 12.0,
                        fk=r.choice(['series'] * (3 if k != 'ntu' else 0) + ['const', 'const', 'const', 'wide', 'wide', 'zero1', 'zero2', 'series', 'equal']),
                        rv=r.choice([0, 0, 0, 1, 2, 3]),
                        turn=int(r.random() < (0.4 if k != 'ntu' else 0.6)),
                        kmax=120 if tier == 'quick' else 300))
    out.append(dict(kind='transition', seed='x', w=3))
    return out


def geometry(r, kw, kind):
    """vary the exchanger's geometry; returns a label"""
    ps = r.choice([1, 1, 1, 2, 3])
    if ps == 1:
        kw['plates'] = 2 * r.randint(2, 30)
    else:
        kw['plates'] = 2 * ps * r.randint(1, 12) + 1
    kw['passes'] = ps
    if ps > 1:
        kw.pop('max_channels', None)
    kw['hexdb'] = r.choice(['BX8T', 'B10', 'B10T', 'B25T'])
    lab = 'p%d' % min(ps, 2)
    return lab


def run(c):
    from .. import ref, scen
    v = lib.V()
    if c['kind'] == 'transition':
        return transition(v)
    r = lib.rng('hex', c['seed'])
    kind = c['kind']
    f = [r.uniform(0.02, 0.5), r.uniform(0.02, 0.5)]
    if c['fk'] == 'wide':
        f = [10 ** r.uniform(-4, 0), 10 ** r.uniform(-4, 0)]
    if c['fk'] == 'equal':
        f[1] = f[0]
    if c['fk'] == 'zero1':
        f[0] = 0.0
    if c['fk'] == 'zero2':
        f[1] = 0.0
    Ts, Td = round(r.uniform(5, 95), 2), round(r.uniform(5, 95), 2)
    n = nets.hexnet(r, c['tf'], kind=kind, dms=round(f[0], 6), dmd=round(f[1], 6), Ts=Ts, Td=Td)
    spec = n.s
    spec['tfkw'] = dict(max_stepsize=1.0, rtol=r.choice([1e-2, 1e-3]), atol=r.choice([1e-2, 1e-3]))
    kw = next(p for p in spec['parts'] if p['n'] == 'h')['kw']
    lab = geometry(r, kw, kind)
    if kind != 'ntu':
        kw['grid_points'] = r.choice([3, 5, 8, 10])
    key = 'Reynolds_correction' if kind == 'ntu' else 'reynolds_correction'
    kw.pop('Reynolds_correction', None)
    if r.random() < 0.7:
        kw[key] = r.choice([1e-6, 100, 1000, 1500.0, 7750])
    if c['fk'] == 'series':
        for p in spec['parts']:
            if p['t'] == 'PipeWithPump':
                dm = p['kw'].pop('const_val')
                x = [round(dm * r.choice([1, 1, 0.5, 0.1]), 6) if r.random() > 0.25 else 0.0 for _ in range(100)]
                if c.get('turn'):  # streams which change their direction
                    x = [y * r.choice([1, 1, -1]) for y in x]
                p['kw'].update(time_series=nets.ts(x, 1.0), start_massflow=max(x[0], 0.0))
    # stream directions: bit 0 supply, bit 1 demand
    for b, (x, y) in enumerate((('sup_in', 'sup_out'), ('dmd_in', 'dmd_out'))):
        if c['rv'] >> b & 1:
            for q in spec['conns']:
                for j in (1, 3):
                    if q[j - 1] == 'h' and q[j] in (x, y):
                        q[j] = y if q[j] == x else x
    tr = scen.trace(scen.run(spec))
    if kind == 'ntu':
        return ntu(c, v, spec, tr, kw, lab)
    return numeric(c, v, spec, tr, kw, lab)


def numeric(c, v, spec, tr, kw, lab):
    from .. import ref
    rep = ref.Replay(spec)
    q = rep.net.parts['h']
    nst = skip = since = 0
    worst = 0.0
    dm = tr['h']['res_dm'].reshape(len(tr['t']), -1)
    H = tr['h']['res']
    keys = set()
    for k, p, a, b, _, _, _ in rep.steps(tr, kmax=c['kmax']):
        if p != 'h':
            continue
        near, q.near = q.near, False
        if q.impl and (near or not q.conv):
            skip += 1
            continue
        e = np.abs(a - b)
        # the conductance of the ports settles within the first evaluations after a change of flow
        since = since + 1 if k > 1 and (dm[k] == dm[k - 1]).all() else 0
        lim = (5e-8 if not q.impl else 2e-6) * (1 + np.abs(a)) + (0 if since > 3 else 3e-2 * 0.02 ** since)
        nst += 1
        if not (e <= lim).all():
            i = int(np.nanargmax(e - lim)) if np.isfinite(e).all() else int(np.argmin(np.isfinite(e)))
            v.add('cell:' + c['kind'], 'exchanger cell %d (%s) at step %d (h=%.4g): recorded %.12g, balance gives %.12g '
                  '(difference %.3g, allowed %.3g); flows %s' % (i // 3, ('supply', 'plate', 'demand')[i % 3], k,
                                                                 tr['t'][k] - tr['t'][k - 1], b[i], a[i], e[i], lim[i], dm[k]))
        worst = max(worst, float((e / lim).max()))
    # the exchanger is passive: everything stays within start and inlet temperatures
    ends = [tr[x]['res'] for x in tr if x not in ('t', 'dtv', 'h')]
    lo = min([H[0].min()] + [x.min() for x in ends])
    hi = max([H[0].max()] + [x.max() for x in ends])
    ok = (H.min() >= lo - 0.03 * (hi - lo) - 1e-6) and (H.max() <= hi + 0.03 * (hi - lo) + 1e-6)
    if c['kind'] == 'expl':
        v.chk(ok, 'range', lambda: 'exchanger left the range of its surroundings: [%.6g, %.6g] vs [%.6g, %.6g]'
              % (H.min(), H.max(), lo, hi))
    reg = ('lam' if q.Re[0] < 2300 else '') + ('tur' if q.Re[1] > 2300 else '')
    keys.add('%s %s %s rv%d%s %s' % (c['kind'], lab, c['fk'], c['rv'], 't' * c.get('turn', 0), reg))
    return dict(viol=v, keys=sorted(keys), stats=dict(numeric_steps=nst, numeric_cells=nst * q.n, skipped_transition=skip),
                sample=dict(kind=c['kind'], plates=kw['plates'], passes=kw['passes'], Re=q.Re, steps=nst, worst=worst))


def eff(C1, C2, UA):
    """heat flow per kelvin of inlet temperature difference of a counter flow exchanger"""
    a, b = np.minimum(C1, C2), np.maximum(C1, C2)
    r = a / b
    N = UA / a
    with np.errstate(all='ignore'):
        x = np.exp(-N * (1 - r))
        e = np.where(1 - r < 1e-6, N / (1 + N), (1 - x) / (1 - r * x))
    return a * e


def ntu(c, v, spec, tr, kw, lab):
    from .. import ref
    net = ref.Net
    G = ref.HexGeo(kw)
    t = tr['t']
    K = len(t)
    link = {}
    for a, ap, b, bp in spec['conns']:
        link[a, ap] = (b, bp)
        link[b, bp] = (a, ap)
    P = ['sup_in', 'sup_out', 'dmd_in', 'dmd_out']
    res = tr['h']['res'].reshape(K, 4)
    corr = kw.get('Reynolds_correction', 1e-6)
    dm = [np.ravel(tr[p]['res_dm'].reshape(K, -1)[:, 0]) for p in ('pp', 'pq')]

    def nb(port):
        o, op = link['h', port]
        x = tr[o]['res'].reshape(K, -1)
        return (x[:, 0], x[:, 1]) if op == 'in' else (x[:, -1], x[:, -2])
    # direction of each stream in each step: index of the port through which it enters and leaves
    rev = [(dm[b] < 0) ^ bool(c['rv'] >> b & 1) for b in (0, 1)]
    ein = [np.where(rev[b], 2 * b + 1, 2 * b) for b in (0, 1)]
    eout = [np.where(rev[b], 2 * b, 2 * b + 1) for b in (0, 1)]
    half = rev[0] ^ rev[1]
    row = np.arange(K)
    turned = sum(int((np.diff(x[3:]) != 0).sum()) for x in rev)
    sl = slice(3, K)
    nchk = sharp = zero = 0
    keys = set()
    N = {i: nb(P[i]) for i in range(4)}
    # how far the temperature a part sees in a step may lie from the recorded one
    D = {}
    for i in range(4):
        x, y = N[i]
        d = np.abs(np.diff(x, prepend=x[0]))
        d2 = np.concatenate(([0], d[:-1]))
        D[i] = 2 * np.maximum(d, d2) + 1.5 * np.abs(x - y) + (0.01 if spec['tfkw']['atol'] > 2e-3 else 2e-3)
    Tin = [res[row, a] for a in ein]
    Tout = [res[row, b] for b in eout]
    Nin, Nout, Din, Dout = ([np.array([q[i] for i in range(4)])[x, row] for x in z]
                            for q, z in (({i: N[i][0] for i in N}, ein), ({i: N[i][0] for i in N}, eout), (D, ein), (D, eout)))
    on = [np.abs(x) > 0 for x in dm]
    for s in (0, 1):
        for k in range(3, K):
            if on[s][k]:
                e = abs(Tin[s][k] - Nin[s][k])
                v.chk(e <= Din[s][k] + 1e-6, 'inlet', lambda: 'exchanger inlet %s at step %d is %.9g, connected part has %.9g'
                      % (P[ein[s][k]], k, Tin[s][k], Nin[s][k]))
    both = on[0] & on[1]
    one = on[0] ^ on[1]
    for k in range(3, K):
        if one[k]:
            s = 0 if on[0][k] else 1
            zero += 1
            v.chk(abs(Tin[s][k] - Tout[s][k]) <= 1e-9, 'stopped', lambda: 'step %d: the other stream stands still but the '
                  'stream passes from %.9g to %.9g' % (k, Tin[s][k], Tout[s][k]))
    # outlet temperatures from an independent effectiveness relation; range over possible neighbour values
    lo = [np.full(K, np.inf), np.full(K, np.inf)]
    hi = [np.full(K, -np.inf), np.full(K, -np.inf)]
    C = [None, None]
    m = [np.maximum(np.abs(x), 1e-300) for x in dm]
    rmin, rmax = np.inf, 0.0
    with np.errstate(all='ignore'):
        for ea in (-1, 0, 1):
            for eb in (-1, 0, 1):
                Tm = [np.clip((Tin[s] + Nout[s] + (ea, eb)[s] * Dout[s]) / 2, 1.0, 105) for s in (0, 1)]
                C = [m[s] * ref.cp_w(Tm[s]) for s in (0, 1)]
                al = []
                for s, ch in ((0, G.ns), (1, G.nd)):
                    x, Re = ref.alpha_plate(m[s] / ch, Tm[s], G.A_ch, G.dh, G.L, corr)
                    al.append(x)
                    if both[sl].any():
                        rmin, rmax = min(rmin, Re[sl][both[sl]].min()), max(rmax, Re[sl][both[sl]].max())
                UA = G.N * G.A_eff / (1 / al[0] + 1 / al[1] + G.s_pl / G.lam_wll)
                q = eff(C[0], C[1], UA) * (Tin[0] - Tin[1])
                for s, sg in ((0, -1), (1, 1)):
                    T = Tin[s] + sg * q / C[s]
                    lo[s] = np.minimum(lo[s], T)
                    hi[s] = np.maximum(hi[s], T)
    dT = Tin[0] - Tin[1]
    for k in range(3, K):
        if not both[k]:
            continue
        a, b = min(Tin[0][k], Tin[1][k]), max(Tin[0][k], Tin[1][k])
        for s in (0, 1):
            T = Tout[s][k]
            nchk += 1
            v.chk(a - 1e-9 <= T <= b + 1e-9, 'second law', lambda: 'step %d: outlet %.9g outside the inlets [%.9g, %.9g]' % (k, T, a, b))
            if not half[k]:
                w = 1e-7 * abs(dT[k]) + 1e-9
                sharp += int(hi[s][k] - lo[s][k] < 1e-3 * abs(dT[k]))
                x = hi[s][k] - lo[s][k]
                v.chk(lo[s][k] - x - w <= T <= hi[s][k] + x + w, 'effectiveness:' + 'sd'[s],
                      lambda: 'step %d: %s stream leaves with %.9g, counter-flow relation gives %.9g..%.9g (inlets %.6g, %.6g; '
                      'flows %.6g, %.6g; plates %d, passes %d)' % (k, ('supply', 'demand')[s], T, lo[s][k], hi[s][k],
                                                                   Tin[0][k], Tin[1][k], dm[0][k], dm[1][k], kw['plates'], kw['passes']))
        # heat balance with the heat capacities between the coldest and the hottest temperature around
        Q = [m[s][k] * ref.cp_w((Tin[s][k] + Nout[s][k]) / 2) * (Tin[s][k] - Tout[s][k]) for s in (0, 1)]
        sc = max(abs(Q[0]), abs(Q[1]))
        cps = ref.cp_w(np.linspace(min(a, N[0][0][k], N[1][0][k], N[2][0][k], N[3][0][k]),
                                   max(b, N[0][0][k], N[1][0][k], N[2][0][k], N[3][0][k]), 5))
        Dm = max(Dout[0][k], Dout[1][k])
        tol = min(cps.max() / cps.min() - 1, 2e-4 * Dm) + 1e-6
        v.chk(abs(Q[0] + Q[1]) <= tol * sc + 1e-6 * max(m[0][k], m[1][k]) * 4200, 'balance',
              lambda: 'step %d: supply gives off %.9g W, demand takes up %.9g W' % (k, Q[0], -Q[1]))
    reg = ('lam' if rmin < 2300 else '') + ('tur' if rmax > 2300 else '')
    keys.add('ntu %s %s rv%d%s %s %s' % (lab, c['fk'], c['rv'], 't' * min(turned, 1), reg, 'sup' if dT[-1] > 0 else 'dmd'))
    return dict(viol=v, keys=sorted(keys), stats=dict(ntu_outlets=nchk, ntu_sharp=sharp, ntu_turned=turned, one_stream_stopped=zero),
                sample=dict(kind='ntu', plates=kw['plates'], passes=kw['passes'], Re=[rmin, rmax], outlets=nchk, sharp=sharp))


def transition(v):
    """implicit exchanger whose channels settle at the laminar/turbulent transition"""
    from .. import scen
    out = {}
    for kind in ('expl', 'impl'):
        r = lib.rng('hx1')
        n = nets.hexnet(r, 40.0, kind=kind, dms=0.2, dmd=0.3, Ts=80.0, Td=20.0, Ti=40.0)
        kw = next(p for p in n.s['parts'] if p['n'] == 'h')['kw']
        kw.update(plates=10, hexdb='B25T', max_channels='supply', grid_points=10, reynolds_correction=1000,
                  insulation_thickness=0.1)
        tr = scen.trace(scen.run(n.s))
        H = tr['h']['res'][-1]
        i = [tr[x]['res'][-1].ravel()[-1] for x in ('pp', 'pq')]
        out[kind] = (0.2 * (i[0] - H[-1, 0]), 0.3 * (H[0, 2] - i[1]))
    a, b = out['expl']
    v.chk(abs(a - b) < 0.03 * abs(a), 'transition-explicit', 'steady explicit exchanger: %g given off, %g taken up' % (a, b))
    a, b = out['impl']
    v.chk(abs(a - b) < 0.03 * abs(a), 'impl-root-transition',
          'steady implicit exchanger at the laminar/turbulent transition: supply gives off %.4f kg K/s, demand takes up %.4f kg K/s' % (a, b))
    return dict(viol=v, keys=['transition'], stats=dict(transition_runs=2), sample=dict(out=str(out)))


def finish(results, by_id, stats):
    if len(results) > 60 and (stats.get('ntu_sharp', 0) < 300 or stats.get('numeric_steps', 0) < 300):
        return [dict(key='reach', msg='too few observations: %s' % stats)]
    return []
