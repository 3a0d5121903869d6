"""C23: heat-transfer coefficients combine like thermal resistances."""
import numpy as np

from .. import lib

RULE = ('one evaluation = one batch of randomised calls of one helper, compared with independent resistance arithmetic; distinct = (helper, '
        'scalar or array arguments, number of arguments, extreme ratio, mode)')
ASSUMPTIONS = ['interpreted and compiled helpers are called', 'layers: logarithmic radius ratios for cylinders, thickness for plates; helpers '
               'which end or start in the wall take half of its thickness', 'logarithmic mean of two different differences of equal sign']

KIND = ['cyl', 'plate', 'series', 'parallel', 'lmtd', 'surface', 'tb']


def gen(tier, seed):
    n = 3 if tier == 'quick' else 40
    out = []
    for mode in ('py', 'jit'):
        for k in KIND:
            for i in range(n if mode == 'py' else 1):
                out.append(dict(kind=k, seed='c23_%d_%s_%d' % (seed, k, i), mode=mode, grp='c23' + k, w=1, timeout=300,
                                n=150 if mode == 'py' else 60))
    return out


def run(c):
    from .. import scen
    pf = scen.ms.pf
    v, r = lib.V(), lib.rng(c['seed'])
    g = np.random.default_rng(r.randint(0, 2 ** 31))
    n, keys = 0, set()
    jit = c['mode'] == 'jit'

    def lu(a, b, k=None):
        return np.exp(g.uniform(np.log(a), np.log(b), k))

    def near(nm, y, w, ctx, rt=1e-11):
        nonlocal n
        y, w = np.asarray(y, dtype=float), np.asarray(w, dtype=float)
        n += w.size
        ok = y.shape == w.shape and np.all(np.abs(y - w) <= rt * np.abs(w))
        v.chk(ok, nm, lambda: '%s(%s) gives %s, resistances give %s' % (nm, ctx, y.flat[:3], w.flat[:3]))
        v.chk(y.shape == w.shape and np.isfinite(y).all(), nm + ' finite', lambda: '%s(%s) is %s' % (nm, ctx, y.flat[:3]))

    for i in range(c['n']):
        k = r.choice([1, 2, 5, 9])
        ri = float(lu(0.003, 1.0))
        ro = ri * (1 + float(lu(0.005, 0.4)))
        rs = ro * (1 + float(lu(0.01, 3.0)))
        gs = float(lu(0.01, 2))
        ai, ao = lu(1, 2e4, k), lu(1, 50, k)
        lw, li = float(lu(0.1, 400)), float(lu(0.01, 1))
        Ai = 2 * np.pi * ri * gs
        half = (ri + ro) / 2
        R = dict(i=1 / (ai * Ai), w=np.log(ro / ri) / (2 * np.pi * gs * lw), w1=np.log(half / ri) / (2 * np.pi * gs * lw),
                 w2=np.log(ro / half) / (2 * np.pi * gs * lw), ins=np.log(rs / ro) / (2 * np.pi * gs * li),
                 s=1 / (ao * 2 * np.pi * rs * gs), o=1 / (ao * 2 * np.pi * ro * gs))
        rl, rli, rri, rro = ri * np.log(ro / ri), ri * np.log(rs / ro), ri / rs, ri / ro
        bk = ai.copy(), ao.copy()
        ctx = 'r=%.3g/%.3g/%.3g, lam=%.3g/%.3g, alpha=%.3g/%.3g' % (ri, ro, rs, lw, li, ai[0], ao[0])
        if c['kind'] == 'cyl':
            big = np.full(k + 2, -5.0)
            for nm, a, w in (('UA_fld_wll_ins_amb_cyl', (Ai, rl, rli, rri, ai, ao, lw, li), R['i'] + R['w'] + R['ins'] + R['s']),
                             ('UA_fld_wll_amb_cyl', (Ai, rl, rro, ai, ao, lw), R['i'] + R['w'] + R['o']),
                             ('UA_fld_wll_cyl', (Ai, ri, ro, ai, lw), R['i'] + R['w1']),
                             ('UA_wll_ins_amb_cyl', (Ai, ri, ro, rli, rri, ao, lw, li), R['w2'] + R['ins'] + R['s']),
                             ('UA_wll_amb_cyl', (Ai, ri, ro, ao, lw), R['w2'] + R['o'])):
                big[:] = -5.0
                with scen.quiet():
                    getattr(pf, nm)(*a, big[1:-1])
                near(nm, big[1:-1].copy(), 1 / w, ctx)
                v.chk(big[0] == big[-1] == -5.0, nm + ' bounds', '%s wrote outside its output' % nm)
                keys.add('%s %d %s' % (nm, k, c['mode']))
        elif c['kind'] == 'plate':
            A, sw, si = float(lu(0.01, 10)), float(lu(1e-4, 0.1)), float(lu(1e-3, 0.3))
            sc = r.random() < 0.4 and not jit
            x, y = (float(ai[0]), float(ao[0])) if sc else (ai, ao)
            for nm, a, w in (('UA_fld_wll_plate', (A, sw, x, lw), 1 / x + sw / lw),
                             ('UA_fld_wll_ins_amb_plate', (A, sw, si, x, y, lw, li), 1 / x + sw / lw + si / li + 1 / y),
                             ('UA_wll_ins_amb_plate', (A, sw, si, lw, li, y), sw / lw + si / li + 1 / y)):
                near(nm, getattr(pf, nm)(*a), A / w, ctx)
                keys.add('%s %s %s' % (nm, 'scalar' if sc else k, c['mode']))
        elif c['kind'] in ('series', 'parallel'):
            m = r.choice([1, 2, 3, 4, 7])
            if jit:
                m, k = r.choice([2, 3]), 4
            mix = r.random() < 0.3 and not jit
            args = [float(lu(1e-3, 1e4)) if (mix and j % 2) else lu(1e-3, 1e4, k) for j in range(m)]
            if r.random() < 0.3 and not jit:
                args = [float(np.ravel(x)[0]) for x in args]
            if len(args) > 1 and not isinstance(args[0], np.ndarray) and any(isinstance(x, np.ndarray) for x in args):
                args.sort(key=lambda x: not isinstance(x, np.ndarray))
            cp = [np.copy(x) for x in args]
            nm = c['kind'] + '_circuit_UA'
            f = getattr(pf, nm)
            y = f(*args)
            w = 1 / sum(1 / np.asarray(x) for x in args) if c['kind'] == 'series' else sum(np.asarray(x) for x in args)
            near(nm, y, w, '%d arguments' % m)
            p = args[:]
            r.shuffle(p)
            if not isinstance(p[0], np.ndarray) and isinstance(args[0], np.ndarray):
                p = args[::-1] if isinstance(args[-1], np.ndarray) else args
            near(nm + ' order', f(*p), w, '%d arguments in another order' % m)
            if m > 2 and not jit:
                near(nm + ' nested', f(f(*args[:2]), *args[2:]), w, 'nested')
            if c['kind'] == 'series':
                lim = np.min([np.broadcast_to(x, np.shape(w)) for x in args], axis=0)
                v.chk((np.asarray(y) <= lim * (1 + 1e-12)).all(), nm + ' bound', 'a series of conductances is larger than its smallest member')
            v.chk(all(np.array_equal(a, b) for a, b in zip(args, cp)), nm + ' input', lambda: '%s changed its arguments' % nm)
            keys.add('%s %d %s %s' % (nm, m, 'mix' if mix else k, c['mode']))
        elif c['kind'] == 'lmtd':
            sc = r.random() < 0.4
            q = None if sc else k
            sg = r.choice([1.0, -1.0])
            B1, dB = g.uniform(0, 60, q), lu(0.5, 50, q)
            dA = dB * np.exp(g.uniform(0.01, 2.5, q) * g.choice([-1, 1], q))
            A1 = g.uniform(0, 60, q)
            a = (A1, A1 - sg * dA, B1, B1 - sg * dB)
            cp = [np.copy(x) for x in a]
            y = pf.log_mean_temp_diff(*a)
            dA, dB = sg * (np.asarray(a[0]) - a[1]), sg * (np.asarray(a[2]) - a[3])
            near('log_mean_temp_diff', y, sg * (dA - dB) / np.log(dA / dB), 'differences %.4g, %.4g' % (np.ravel(dA)[0], np.ravel(dB)[0]), 1e-9)
            z = sg * np.asarray(y)
            v.chk(((z >= np.minimum(dA, dB) * (1 - 1e-9)) & (z <= np.maximum(dA, dB) * (1 + 1e-9)) & (z <= (dA + dB) / 2 * (1 + 1e-9))
                   & (z >= np.sqrt(dA * dB) * (1 - 1e-9))).all(), 'lmtd bound', 'the mean difference is not between the geometric and the arithmetic mean')
            near('lmtd ends', pf.log_mean_temp_diff(a[2], a[3], a[0], a[1]), y, 'ends swapped', 1e-9)
            near('lmtd streams', -np.asarray(pf.log_mean_temp_diff(a[1], a[0], a[3], a[2])), y, 'streams swapped', 1e-9)
            v.chk(all(np.array_equal(x, b) for x, b in zip(a, cp)), 'lmtd input', 'log_mean_temp_diff changed its arguments')
            keys.add('lmtd %s %d %s' % ('scalar' if sc else k, sg, c['mode']))
        elif c['kind'] == 'surface':
            ins = r.random() < 0.6
            As = 2 * np.pi * (rs if ins else ro) * gs
            UA = 1 / (R['i'] + R['w'] + (R['ins'] + R['s'] if ins else R['o']))
            T, Ta = g.uniform(1, 100, k), g.uniform(-20, 60)
            cp = [T.copy(), ao.copy(), UA.copy()]
            w = Ta + (T - Ta) * (1 - UA * (R['i'] + R['w'] + (R['ins'] if ins else 0)))
            out = np.full(k + 2, -5.0)
            pf.surface_temp_steady_state_inplace(T, Ta, As, ao, UA, out[1:-1])
            y2 = pf.surface_temp_steady_state(T, Ta, As, ao, UA)
            for nm, y in (('surface_temp_steady_state_inplace', out[1:-1]), ('surface_temp_steady_state', y2)):
                n += k
                v.chk(np.shape(y) == T.shape and np.abs(y - w).max() <= 1e-9 * (1 + np.abs(w).max()), nm,
                      lambda: '%s gives %s, the heat flow through the layers gives %s' % (nm, y[:3], w[:3]))
                v.chk(((y >= np.minimum(T, Ta) - 1e-9) & (y <= np.maximum(T, Ta) + 1e-9)).all(), nm + ' bound', lambda: '%s is not between fluid and ambient' % nm)
            v.chk(out[0] == out[-1] == -5.0, 'surface bounds', 'surface_temp_steady_state_inplace wrote outside its output')
            v.chk(all(np.array_equal(a, b) for a, b in zip((T, ao, UA), cp)), 'surface input', 'a surface temperature function changed its arguments')
            keys.add('surface %d %d %s' % (k, ins, c['mode']))
        else:
            k = r.randint(2, 12)
            A, lam, Uw = float(lu(1e-4, 3)), lu(0.1, 1, k), float(lu(1e-3, 10))
            lam0 = lam.copy()
            for nm, a, w in (('UA_plate_tb', (A, gs, lam, Uw), lam * A / gs + Uw), ('UA_plate_tb_fld', (A, gs, lam), lam * A / gs),
                             ('UA_plate_tb_wll', (Uw,), np.full(k, Uw))):
                out = np.full(k + 2, -5.0)
                getattr(pf, nm)(*a, out)
                near(nm, out[1:-1].copy(), w, 'A=%.3g, d=%.3g' % (A, gs))
                v.chk(out[0] == out[-1] == -5.0, nm + ' ends', '%s changed the end cells of its output' % nm)
                keys.add('%s %d %s' % (nm, min(k, 6), c['mode']))
            v.chk(np.array_equal(lam, lam0), 'tb input', 'an axial conduction helper changed its arguments')
        v.chk(np.array_equal(bk[0], ai) and np.array_equal(bk[1], ao), c['kind'] + ' input', 'a helper changed the coefficients it was given')
    return dict(viol=v, keys=sorted(keys), stats=dict(values=n), sample=dict(c, values=n))
