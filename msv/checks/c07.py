"""C07: local error control and convergence."""
import numpy as np

from .. import lib
from . import c02, c03

RULE = ('one evaluation = one simulation: (local) every accepted step re-evaluated, its embedded error estimate compared with '
        'the tolerance; (conv) runs at two tolerances compared with an independently integrated reference; distinct = '
        '(kind, family, binned tolerances, binned worst error ratio)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'reference: own finite-volume right-hand side integrated by scipy LSODA/RK45 at rtol 1e-8']
FAMS = ['chain', 'branched', 'tes', 'valve', 'conn3', 'loop', 'rnet', 'mixloop']


def gen(tier, seed):
    n = 72 if tier == 'quick' else 800
    out = []
    for i in range(n):
        r = lib.rng('c07', seed, i)
        kind = 'conv' if i % 3 == 2 else 'local'
        c = dict(kind=kind, fam=FAMS[(i // 3 if kind == 'conv' else i) % len(FAMS)], seed='c07_%d_%d' % (seed, i))
        if c['fam'] == 'rnet':
            c['net'] = dict(sep=True)
        if kind == 'local':
            c.update(tf=r.choice([4.0, 10.0]), pk=r.choice(['const', 'const', 'series', 'rev']), vk=r.choice(['const', 'series']),
                     tfkw=dict(rtol=10 ** r.uniform(-6, -3), atol=10 ** r.uniform(-6, -3)), kmax=300)
            if r.random() < 0.3:
                c['tfkw'].update(min_stepsize=r.choice([1e-3, 1e-2]))
        else:
            c.update(tf=r.choice([20.0, 40.0]), pk='const', vk='const', w=2.5)
        out.append(c)
    return out


def run(c):
    return local(c) if c['kind'] == 'local' else conv(c)


def local(c):
    from .. import ref, scen
    v = lib.V()
    spec = lib.fam_spec(c)
    ps, vs = c02.vary(spec, lib.rng('vary', c['seed']), c['pk'], c['vk'])
    tr = scen.trace(scen.run(spec))
    t = tr['t']
    rep = ref.Replay(spec, opening=lambda k: {n: c02.at(x, t[k - 1]) for n, x in vs.items()})
    rtol, atol = c['tfkw']['rtol'], c['tfkw']['atol']
    mn = c['tfkw'].get('min_stepsize', 1e-8)
    acc = {}
    for k, p, a, b, tol, sc, s1 in rep.steps(tr, kmax=c['kmax']):
        T0 = tr[p]['res'][k - 1]
        # allowed uncertainty of the predicted value: ambient exchange
        d = np.maximum(np.abs(b - s1) - 1e-9 - (sc if k < 6 else 0.06 * sc + 2 * tol), 0)
        x = (d / (np.maximum(T0, b) * rtol + atol)) ** 2
        y = acc.setdefault(k, [0.0, 0])
        y[0] += float(x.sum())
        y[1] += x.size
    E = {k: (y[0] / y[1]) ** 0.5 for k, y in acc.items()}
    atmin = 0
    worst = 0.0
    for k, e in E.items():
        h = t[k] - t[k - 1]
        if h <= mn * (1 + 1e-6):
            atmin += 1
            continue
        worst = max(worst, e)
        v.chk(e <= 1.001, 'local', lambda: 'step %d (h=%.4g) was accepted with an error of %.4g times the tolerance (rtol %.2g, atol %.2g)'
              % (k, h, e, rtol, atol))
    lim = sum(e > 0.5 for e in E.values())
    return dict(viol=v, keys=['local %s %s %s' % (c['fam'], lib.sig(np.log10(rtol), 1), int(worst * 5))],
                stats=dict(local_steps=len(E), steps_at_min=atmin, steps_near_tolerance=lim, max_local_error=worst),
                sample=dict(kind='local', fam=c['fam'], rtol=rtol, atol=atol, steps=len(E), worst=worst, near=lim))


def rhs(spec):
    from .. import ref
    net = ref.Net(spec)
    fr = ref.FlowRef(spec)
    pump = {p['n']: p['kw']['const_val'] for p in spec['parts'] if p['t'] == 'PipeWithPump'}
    fl = fr.solve(pump, ref.openings(spec))
    names = list(net.parts)
    off = np.cumsum([0] + [net.parts[n].n for n in names])
    faces = {n: fr.faces(n, fl, net.parts[n].n, net.parts[n].ports) for n in names}

    def unpack(y):
        return {n: y[off[i]:off[i + 1]] for i, n in enumerate(names)}

    def f(t, y):
        st = unpack(y)
        jT = {}
        for _ in range(2):
            for j, d in net.junc.items():
                Tp = {}
                for p in d['ports']:
                    o, op = net.link[j, p]
                    Tp[p] = 20.0 if (o in net.junc and o not in jT) else net.port_T(j, p, st, jT, net.bc)
                dm = {p: fl[j, p] if abs(fl[j, p]) > 1e-12 else 0.0 for p in d['ports']}
                jT[j] = ref.junction(Tp, dm)
        out = np.empty_like(y)
        for i, n in enumerate(names):
            q = net.parts[n]
            Tp = {p: net.port_T(n, p, st, jT, net.bc) for p in q.ports}
            pin = {p: max(fl[n, p], 0.0) for p in q.ports}
            dm = np.full(q.n, fl[n, 'in']) if q.invar else np.append(faces[n], faces[n][-1])
            h = q.inner(st[n], Tp, faces[n], pin) + q.loss_fix(st[n], dm)
            out[off[i]:off[i + 1]] = h / q.mcp(st[n])
        return out
    y0 = np.concatenate([net.parts[n].T0 for n in names])
    return f, y0, unpack


def conv(c):
    from scipy.integrate import solve_ivp

    from .. import scen
    v = lib.V()
    res = {}
    tols = [(1e-2, 1e-2, 100.0), (1e-3, 1e-4, 0.5), (1e-5, 1e-6, 0.05)]
    spec = None
    for rt, at, mx in tols:
        spec = lib.fam_spec(dict(c, tfkw=dict(rtol=rt, atol=at, max_stepsize=mx)))
        res[rt] = scen.trace(scen.run(spec))
    f, y0, unpack = rhs(spec)
    ends = sorted({float(r['t'][-1]) for r in res.values()})
    mid = sorted({float(r['t'][len(r['t']) // 2]) for r in res.values()})
    te = sorted(set(ends + mid))
    sol = solve_ivp(f, (0, te[-1]), y0, method='RK45' if len(y0) > 60 else 'LSODA', rtol=1e-7, atol=1e-7, t_eval=te)
    at = {x: unpack(sol.y[:, i]) for i, x in enumerate(sol.t)}
    err = []
    span = max(float(np.ptp(y0)), 1.0)
    for rt, atol, mx in tols:
        r = res[rt]
        e = 0.0
        for k in (len(r['t']) // 2, len(r['t']) - 1):
            a = at[float(r['t'][k])]
            e = max([e] + [float(np.abs(r[n]['res'][k] - a[n]).max()) for n in a])
        err.append(e)
    # bounds: accumulated local errors
    n = [len(res[x[0]]['t']) for x in tols]
    for e, (rt, atol, mx), lim in zip(err, tols, LIM):
        v.chk(e <= lim * span, 'conv', lambda: '%s: largest error %.4g K at rtol %g (range %.3g K), allowed %.3g' % (
            c['fam'], e, rt, span, lim * span))
    return dict(viol=v, keys=['conv %s %s %s' % (c['fam'], lib.sig(np.log10(err[0] + 1e-9), 2), lib.sig(np.log10(err[2] + 1e-9), 2))],
                stats=dict(conv_runs=1, max_err_coarse=err[0] / span, max_err_mid=err[1] / span, max_err_fine=err[2] / span),
                sample=dict(kind='conv', fam=c['fam'], errors_K=err, rtol=[x[0] for x in tols], steps=n, range_K=span))


LIM = (0.05, 0.02, 0.005)
