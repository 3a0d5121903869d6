"""C24: convection correlations."""
import numpy as np

from .. import lib

RULE = ('one evaluation = one batch of randomised calls of one correlation, compared with an independent implementation of the published '
        'equation and with its sign, limit and trend relations; distinct = (correlation, regimes seen, flow direction, orientation, mode)')
ASSUMPTIONS = ['interpreted and compiled correlations are called',
               'water properties from the polynomial fits checked by C22; Pr = 0.708 for air',
               'natural convection on a horizontal plane vanishes without temperature difference']

KIND = ['pipe', 'pipe_wll', 'plate', 'plate1', 'cyl', 'vplane', 'hplane', 'length']


def gen(tier, seed):
    n = 3 if tier == 'quick' else 40
    out = []
    for mode in ('py', 'jit'):
        for k in KIND:
            if k == 'length' and mode == 'jit':
                continue
            for i in range(n if mode == 'py' else 1):
                out.append(dict(kind=k, seed='c24_%d_%s_%d' % (seed, k, i), mode=mode, grp='c24' + k, w=1, timeout=300,
                                n=120 if mode == 'py' else 60))
    return out


def run(c):
    from .. import ref, scen
    pf = scen.ms.pf
    v, r = lib.V(), lib.rng(c['seed'])
    g = np.random.default_rng(r.randint(0, 2 ** 31))
    n, keys = 0, set()
    kd = c['kind']

    def lu(a, b, k=None):
        return np.exp(g.uniform(np.log(a), np.log(b), k))

    def same(nm, y, w, ctx, rt=2e-7):
        nonlocal n
        y, w = np.asarray(y, dtype=float), np.asarray(w, dtype=float)
        n += w.size
        ok = y.shape == w.shape and np.all(np.abs(y - w) <= rt * np.abs(w) + 1e-12)
        j = int(np.argmax(np.abs(y - w))) if y.shape == w.shape else 0
        v.chk(ok, nm, lambda: '%s (%s): %.9g W/m²K, equation gives %.9g' % (nm, ctx, y.flat[j], w.flat[j]))
    for i in range(c['n']):
        k = r.choice([1, 2, 6, 15])
        big = np.full(k + 2, -5.0)
        out = big[1:-1]
        if kd in ('pipe', 'pipe_wll', 'plate', 'plate1'):
            if kd == 'plate1':
                k = 1
                big = np.full(3, -5.0)
                out = big[1:-1]
            T = g.uniform(2, 98, k)
            Tw = g.uniform(2, 98, k)
            d = float(lu(0.002, 1.2)) if kd.startswith('pipe') else float(lu(0.002, 0.01))
            A = float(np.pi / 4 * d * d) if kd.startswith('pipe') else float(lu(1e-4, 1e-2))
            rho, ny, lam = ref.rho_w(T), ref.ny_w(T), ref.lam_w(T)
            regime = r.choice(['zero', 'lam', 'crit', 'turb', 'tiny'])
            Re = dict(zero=0.0, lam=lu(1, 2200), crit=g.uniform(2200, 2400), turb=lu(2400, 2e5), tiny=lu(1e-6, 1.0))[regime]
            f = float(Re) * float(np.mean(ny * rho)) * A / d
            sg = r.choice([1.0, -1.0])
            percell = r.random() < 0.4 and kd.startswith('pipe')
            dm = np.full(k, sg * f) * (g.uniform(0.3, 1.0, k) if percell else 1.0)
            if not percell and kd.startswith('pipe') and r.random() < 0.6:
                dm = dm[:1].copy()
            L = float(lu(0.1, 20))
            x = (np.arange(k) + 1) * L / k
            cp = [q.copy() for q in (dm, T, Tw, rho, ny, lam, x)]
            ctx = '%s, flow %.4g kg/s, d %.3g m, %d cells' % (regime, dm[0], d, k)

            def call(dm_, T_=None, o=out):
                T_ = T if T_ is None else T_
                a = (ref.rho_w(T_), ref.ny_w(T_), ref.lam_w(T_))
                if kd == 'pipe':
                    pf.pipe_alpha_i(dm_, T_, *a, A, d, x, o)
                elif kd == 'pipe_wll':
                    pf.pipe_alpha_i_wll_sep(dm_, np.stack([T_, Tw], axis=1), *a, A, d, x, o)
                elif kd == 'plate':
                    pf.phex_alpha_i_wll_sep_discretized(dm_, T_, Tw, *a, A, d, x, corr, o)
                else:
                    pf.phex_alpha_i_wll_sep(dm_, T_, Tw, *a, A, d, float(x[0]), corr, o)
                return np.array(o)
            corr = r.choice([0.0, 0.0, 300.0, 1500.0])
            y = call(dm)
            K = (ref.Pr_w(T) / ref.Pr_w(Tw)) ** 0.11
            if kd == 'pipe':
                w = ref.alpha_pipe(dm, T, A, d, x)
                Rr = np.abs(np.broadcast_to(dm, T.shape)) / (rho * A) * d / ny
            elif kd == 'pipe_wll':
                w = ref.alpha_pipe(dm, T, A, d, x) * K
                Rr = np.abs(np.broadcast_to(dm, T.shape)) / (rho * A) * d / ny
            else:
                w, Rr = ref.alpha_plate(dm, T, A, d, x, corr)
                w = w * K
            edge = np.abs(Rr - 2300) < 1e-6
            same(kd, y[~edge], w[~edge], ctx)
            v.chk(np.isfinite(y).all() and (y > 0).all(), kd + ' positive', lambda: '%s (%s): coefficients %s' % (kd, ctx, y[:4]))
            lim = 3.65 * lam / d * (K if kd != 'pipe' else 1.0)
            v.chk((y >= lim * 0.999).all(), kd + ' limit', lambda: '%s (%s): Nusselt number %.5g below the laminar limit' % (kd, ctx, (y * d / lam).min()))
            v.chk(big[0] == big[-1] == -5.0, kd + ' bounds', '%s wrote outside its output' % kd)
            v.chk(all(np.array_equal(a, b) for a, b in zip((dm, T, Tw, rho, ny, lam, x), cp)), kd + ' input', '%s changed its arguments' % kd)
            o2 = np.zeros(k)
            if kd.startswith('pipe'):
                # mirrored flow, mirrored cells
                Tw = Tw[::-1].copy()
                z = call(-dm[::-1].copy() if dm.size == k else -dm, T[::-1].copy(), o2)[::-1]
                Tw = Tw[::-1].copy()
                if f != 0.0:
                    same(kd + ' mirrored', z[~edge], y[~edge], ctx)
            else:
                same(kd + ' sign', call(-dm, None, o2)[~edge], y[~edge], ctx)
            z = call(dm * 1.02, None, o2)
            R2 = (Rr - (corr if 'plate' in kd else 0)) * 1.02 + (corr if 'plate' in kd else 0)
            reg = ((Rr > 2300) == (R2 > 2300)) & ~edge
            v.chk((z >= y * (1 - 1e-9))[reg].all(), kd + ' trend', lambda: '%s (%s): coefficient falls with rising flow' % (kd, ctx))
            keys.add('%s %s %d%d %d %s' % (kd, regime, (Rr > 2300).any(), (Rr <= 2300).any(), sg, c['mode']))
        elif kd == 'length':
            h, wd, dp, di = (float(lu(0.01, 5)) for _ in range(4))
            for a, w in ((dict(part_shape='plane', vertical=True, height=h), h), (dict(part_shape='cylinder', vertical=True, height=h), h),
                         (dict(part_shape='plane', vertical=False, width=wd, depth=dp), wd * dp / (2 * (wd + dp))),
                         (dict(part_shape='plane', vertical=False, width=di, depth=di), di / 4),
                         (dict(part_shape='cylinder', vertical=False, diameter=di), np.pi * di / 2),
                         (dict(part_shape='sphere', vertical=r.random() < 0.5, diameter=di), di)):
                same('flow length', pf.calc_flow_length(**a), w, str(a))
                keys.add('length %s %s' % (a['part_shape'], a['vertical']))
        else:
            Ta = float(g.uniform(-20, 45))
            dT = g.uniform(-40, 60, k)
            if r.random() < 0.2:
                dT[r.randrange(k)] = 0.0
            if r.random() < 0.2:
                dT *= 1e-6
            Ts = np.clip(Ta + dT, -20, 99)
            L = float(lu(0.02, 4))
            cp = Ts.copy()
            top = g.random(k) < 0.5
            tp = top.copy()
            vert = r.random() < 0.5
            rt = float(lu(0.01, 1))
            ctx = 'surface %.4g, ambient %.4g °C, length %.3g m, %s' % (Ts[0], Ta, L, 'vertical' if vert else 'horizontal')

            def call(T_, o=out):
                if kd == 'cyl':
                    pf.cylinder_alpha_inf(T_, Ta, L, vert, rt, o)
                    return np.array(o)
                if kd == 'vplane':
                    return np.array(pf.vert_plane_alpha_inf(T_, Ta, L))
                return np.array(pf.hor_plane_alpha_inf(T_, Ta, L, top))
            y = call(Ts)
            w = ref.alpha_cyl(Ts, Ta, L, vert, rt) if kd == 'cyl' else ref.alpha_vplane(Ts, Ta, L) if kd == 'vplane' else ref.alpha_hplane(Ts, Ta, L, top)
            same(kd, y, w, ctx, 3e-6)
            if kd == 'vplane':
                same('plane', pf.plane_alpha_inf(Ts, Ta, L, True, top), w, ctx, 3e-6)
            if kd == 'hplane':
                same('plane', pf.plane_alpha_inf(Ts, Ta, L, False, top), w, ctx, 3e-6)
            nz = Ts != Ta
            v.chk(np.isfinite(y).all() and (y >= 0).all() and (y[nz] > 0).all() and (kd == 'hplane' or (y > 0).all()), kd + ' positive',
                  lambda: '%s (%s): coefficients %s' % (kd, ctx, y[:4]))
            v.chk(np.array_equal(Ts, cp) and np.array_equal(top, tp), kd + ' input', '%s changed its arguments' % kd)
            v.chk(big[0] == big[-1] == -5.0, kd + ' bounds', '%s wrote outside its output' % kd)
            z = call(Ta + (Ts - Ta) * 1.05, np.zeros(k))
            rise = np.ones(k, bool)
            if kd == 'hplane':
                # the correlation jumps down at the laminar/turbulent limit: compare within a regime
                rise = np.asarray(ref.alpha_hplane(Ta + (Ts - Ta) * 1.05, Ta, L, top)) >= w * (1 - 1e-5)
            v.chk((z >= y * (1 - 1e-4))[rise].all(), kd + ' trend',
                  lambda: '%s (%s): coefficient falls with rising temperature difference' % (kd, ctx))
            keys.add('%s %d %d %d %s' % (kd, vert, (Ts > Ta).any(), (Ts < Ta).any(), c['mode']))
    return dict(viol=v, keys=sorted(keys), stats=dict(values=n), sample=dict(c, values=n))
