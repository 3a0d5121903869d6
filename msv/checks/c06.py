"""C06: stratification, buoyant mixing and port placement of storages."""
import numpy as np

from .. import lib, nets
from . import c03

RULE = ('one evaluation = one storage simulation with ordering, inversion decay, heat content or port placement '
        'monitored in every recorded step; distinct = (kind, layers, profile/placement class, part)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'volume / distance positions are generated off the layer boundaries']


def gen(tier, seed):
    n = 96 if tier == 'quick' else 1000
    return [dict(kind=['strat', 'mix', 'port', 'port', 'hold'][i % 5], seed='c06_%d_%d' % (seed, i)) for i in range(n)]


def base(r, g, T, Tamb, **kw):
    n = nets.Net(r, 1.0)
    n.Tamb = Tamb
    n.s['tfkw'] = dict(max_stepsize=20.0)
    do = round(r.uniform(0.4, 1.0), 2)
    V = round(np.pi / 4 * do ** 2 * g * r.uniform(0.06, 0.15), 4)
    d = n.gs(g, T=nets.nd(T) if len(set(T)) > 1 else float(T[0]))
    d['insulation_thickness'] = r.choice([0.05, 0.1])
    n.part('Tes', 'tes', volume=V, grid_points=g, outer_diameter=do, shell_thickness=round(r.uniform(2e-3, 8e-3), 4),
           **dict(d, **dict(dict(new_ports=None), **kw)))
    return n


def idle(r, n, T):
    """close the storage by standing-still pipes at the temperature of the end layers"""
    for q, e, i in (('in', 'a', 0), ('out', 'b', -1)):
        x = n.bc(e, float(T[i]))
        n.pump('u' + e, 0.0, T=float(T[i]))
        n.s['parts'][-1]['kw']['T_amb'] = float(T[i])
        n.C('tes', q, 'u' + e, 'in')
        n.C('u' + e, 'out', *x)


def heat(P, T):
    """heat content above 0 degrees (fluid plus wall) [J]"""
    from .. import ref
    x = np.linspace(0, 1, 9)
    w = np.ones(9) * 2
    w[1::2] = 4
    w[0] = w[-1] = 1
    w /= 24
    return float(sum(np.sum(wi * P.mcp(xi * T)) * 1.0 if np.ndim(T) == 0 else (wi * P.mcp(xi * T) * T).sum()
                     for xi, wi in zip(x, w)))


def run(c):
    return dict(strat=strat, hold=strat, mix=mix, port=port)[c['kind']](c)


def strat(c):
    from .. import scen
    v = lib.V()
    r = lib.rng(c['seed'])
    g = r.randint(4, 16)
    hold = c['kind'] == 'hold'
    if hold:  # nearly homogeneous storage losing heat for a long time
        T0 = r.uniform(40, 80)
        T = [T0] * g if r.random() < 0.5 else list(T0 - np.linspace(0, 0.5, g))
        Tamb = round(r.uniform(0, 25), 1)
        tf = 4000.0
    else:
        gaps = [r.choice([0.5, 1, 2, 5, 10]) * r.uniform(0.5, 1.5) for _ in range(g - 1)]
        T = np.concatenate(([0], -np.cumsum(gaps)))
        T = list(90.0 + T) if -T[-1] < 85 else list(90.0 + T * 85 / -T[-1])
        Tamb = round(r.uniform(min(T), max(T)), 1)
        tf = 600.0
    n = base(r, g, T, Tamb)
    n.s['tf'] = tf
    n.s['tfkw']['rtol'] = 1e-3
    idle(r, n, T)
    tr = scen.trace(scen.run(n.s))
    R = tr['tes']['res']
    inv = np.maximum(R[:, 1:] - R[:, :-1], 0).max(axis=1)
    # a top layer which loses heat through the lid can only be a little colder than the layer below
    lim = 0.15 if hold else 0.02
    v.chk(inv.max() <= lim, 'order', lambda: 'layer %d got %.4g K colder than the layer below it (row %d, %d layers)' % (
        int((R[inv.argmax(), 1:] - R[inv.argmax(), :-1]).argmax()), inv.max(), int(inv.argmax()), g))
    return dict(viol=v, keys=['%s %d' % (c['kind'], g)], stats=dict(rows=len(R), layers=g, max_inversion_strat=float(inv.max())),
                sample=dict(kind=c['kind'], layers=g, rows=len(R), max_inversion=float(inv.max())))


def mix(c):
    from .. import ref, scen
    v = lib.V()
    r = lib.rng(c['seed'])
    g = r.randint(4, 12)
    prof = r.choice(['one', 'all', 'rand'])
    lo = r.uniform(15, 40)
    dT = r.choice([2.0, 5.0, 15.0, 40.0])
    if prof == 'one':
        j = r.randint(1, g - 1)
        T = [lo] * j + [lo + dT] * (g - j)
    elif prof == 'all':
        T = list(lo + np.linspace(0, dT, g))
    else:
        T = [lo + r.uniform(0, dT) for _ in range(g)]
        T[0], T[-1] = lo, lo + dT
    n = base(r, g, T, round(lo + dT / 2, 1))
    n.s['tf'] = 400.0
    n.s['tfkw']['rtol'] = 1e-3
    idle(r, n, T)
    tr = scen.trace(scen.run(n.s))
    R, t = tr['tes']['res'], tr['t']
    P = ref.Part(n.s['parts'][0])
    inv = np.maximum(R[:, 1:] - R[:, :-1], 0).sum(axis=1)
    # decay: conduction alone would need (layer height)^2/diffusivity, i.e. hours
    D = 0.6 / (4.18e6)
    ref_t = (P.gsp ** 2) / D  # conduction time scale
    i0 = inv[0]
    k = int(np.searchsorted(t, 0.02 * ref_t))
    k = min(k, len(t) - 1)
    if t[k] >= 0.01 * ref_t or t[-1] > 100:
        left = inv[k] / i0
        # buoyancy raises the exchange by a factor of several hundred for these differences
        if t[k] > 0.002 * ref_t * g ** 2 / 16 and dT >= 5:
            v.chk(left < 0.7, 'decay', lambda: 'inversion of %.3g K only decayed to %.0f %% within %.0f s '
                  '(conduction time scale %.0f s)' % (i0, 100 * left, t[k], ref_t))
    v.chk(inv.max() <= i0 * 1.001 + 0.02, 'grow', lambda: 'inversion grew from %.4g to %.4g K' % (i0, inv.max()))
    # exchange over the inverted interface in the first steps, as effective conductivity
    if prof == 'one' and dT >= 5:
        k = 3
        q = P.mcp(R[0])[j - 1] * (R[k][j - 1] - R[0][j - 1]) / (t[k] - t[0])
        lam = q * P.gsp / P.A / (R[0][j] - R[0][j - 1])
        v.chk(lam > 60, 'buoyancy', lambda: 'inverted layers exchange like a conductivity of %.3g W/(mK)' % lam)
    # every step against the reference model
    x = c03.judge(dict(c, fam='tes', pk='', vk='', kmax=100), lib.V(), n.s, tr, ref.Replay(n.s), {})
    for y in x['viol']:
        v.add('replay ' + y['key'], y['msg'])
    # heat content: changes only by losses and port conduction
    H = np.array([heat(P, x) for x in R])
    Q = 0.0
    Qa = 0.0
    for k in range(1, len(t)):
        q = P.loss_lag(R[k - 1], np.zeros(g))
        Q += q.sum() * (t[k] - t[k - 1])
        Qa += np.abs(q).sum() * (t[k] - t[k - 1])
    moved = np.abs([heat(P, np.array([a])) - heat(P, np.array([b])) for a, b in zip(R[0], R[-1])]).sum() if g else 0
    # port conduction bound: end layers against their ports
    pc = 0.0
    for q, pu in (('in', 'ua'), ('out', 'ub')):
        cell = 0 if q == 'in' else -1
        ao, aw = ref.port_areas(P, 'in')
        ua = ao / (P.gsp / 2) * 0.7 + aw * P.lam_wll / (P.gsp / 2)
        pc += ua * float(np.abs(tr[pu]['res'][:-1, 0] - R[:-1, cell]) @ np.diff(t))
    tol = 0.15 * Qa + pc + 0.002 * moved + 1e-6 * abs(H[0])
    v.chk(abs(H[-1] - H[0] - Q) <= tol, 'heat', lambda: 'heat content changed by %.6g J, losses give %.6g J (allowed difference %.3g)' % (
        H[-1] - H[0], Q, tol))
    return dict(viol=v, keys=['mix %s %d %g' % (prof, g, dT)],
                stats=dict(rows=len(t), layers=g, mixed_runs=1, max_left=float(inv[-1] / i0)),
                sample=dict(kind='mix', profile=prof, layers=g, dT=dT, inversion0=float(i0), inversion_end=float(inv[-1]),
                            heat_error=float(H[-1] - H[0] - Q), allowed=float(tol)))


def port(c):
    from .. import ref, scen
    v = lib.V()
    r = lib.rng(c['seed'])
    tes = r.random() < 0.65
    g = r.randint(4, 14)
    T0 = round(r.uniform(20, 50), 1)
    hot = r.random() < 0.5
    Tf = T0 + (30.0 if hot else -15.0)
    cells, ports = {}, {}
    names = ['s%d' % j for j in range(r.randint(1, 4))]
    r.shuffle(names)
    if tes:
        n = base(r, g, [T0], T0)
    else:
        n = nets.Net(r, 1.0)
        n.Tamb = T0
        n.s['tfkw'] = {}
        n.part('PipeBranched', 'tes', length=round(g * r.uniform(0.2, 0.5), 3), grid_points=g, **n.gs(g, T=T0))
    d = n.s['parts'][0]['kw']
    for p in names:
        i = r.randrange(g) if r.random() < 0.8 or not cells else r.choice(list(cells.values()))
        cells[p] = i
        how = r.choice(['index', 'index', 'volume', 'distance'])
        if how == 'distance' and tes:
            how = 'volume'
        elif how == 'volume' and not tes:
            how = 'distance'
        if how == 'index':
            pos = -1 if i == g - 1 and r.random() < 0.3 else i
        elif how == 'distance':
            pos = (i + r.uniform(0.1, 0.9)) / g * d['length']
        else:
            P0 = ref.Part(dict(n.s['parts'][0], kw=dict(d, new_ports=None)))
            pos = (i + r.uniform(0.1, 0.9)) * P0.V
        ports[p] = [pos, how]
    d['new_ports'] = ports
    fed = r.choice(names)
    # the fed port gets a stream of its own temperature, everything else is at T0; the balance leaves by 'out' or 'in'
    free = r.choice(['in', 'out'])
    hold = 'out' if free == 'in' else 'in'
    flows = {}
    for p in names + [hold]:
        x = n.bc('x' + p, Tf if p == fed else T0)
        dm = n.dnflow(0.1, 0.4) if p == fed else r.choice([0.0, 0.0, n.dnflow(0.05, 0.2)])
        n.pump('u' + p, dm, T=Tf if p == fed else T0)
        n.s['parts'][-1]['kw']['T_amb'] = Tf if p == fed else T0
        flows['u' + p] = dm
        if p == fed or r.random() < 0.5:
            n.C(*x, 'u' + p, 'in')
            n.C('u' + p, 'out', 'tes', p)
        else:
            n.C('tes', p, 'u' + p, 'in')
            n.C('u' + p, 'out', *x)
    n.C('tes', free, *n.bc('f', T0))
    n.s['tf'] = 2.0
    n.s['tfkw']['max_stepsize'] = 0.01
    tr = scen.trace(scen.run(n.s))
    R = tr['tes']['res']
    d1 = np.abs(R[1] - R[0])
    i = int(d1.argmax())
    v.chk(i == cells[fed] and d1[i] > 0, 'place', lambda: 'stream fed at %s (%s) enters layer %d instead of %d of %d (temperature changes %s)'
          % (fed, ports[fed], i, cells[fed], g, np.array2string(d1, precision=3)))
    far = [x for x in range(g) if abs(x - cells[fed]) > 1]
    if far:
        v.chk(d1[far].max() <= 0.02 * d1[i], 'leak', lambda: 'layer %d away from the fed layer %d changed by %.3g in the first step' % (
            far[int(d1[far].argmax())], cells[fed], d1[far].max()))
    x = c03.judge(dict(c, fam='port', pk='', vk='', kmax=40), lib.V(), n.s, tr, ref.Replay(n.s), {})
    for y in x['viol']:
        v.add('replay ' + y['key'], y['msg'])
    # flow between the layers
    fr = ref.FlowRef(n.s)
    fl = fr.solve(flows, {})
    f = fr.faces('tes', fl, g, dict(cells, **{'in': 0, 'out': g - 1}))
    for k in range(1, len(R)):
        a = np.ravel(tr['tes']['res_dm'][k])[:-1]
        v.chk(len(a) == len(f) and np.abs(a - f).max() <= 1e-9, 'faces', lambda: 'flows between layers are %s instead of %s' % (a, f))
    return dict(viol=v, keys=['port %s %d %d %s' % ('tes' if tes else 'branched', len(names), len(set(cells.values())), ports[fed][1])],
                stats=dict(rows=len(R), ports_placed=len(names), coincident=int(len(set(cells.values())) < len(names))),
                sample=dict(kind='port', part='tes' if tes else 'branched', ports=ports, fed=fed, layer=i))
