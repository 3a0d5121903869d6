"""C22: fluid properties."""
import numpy as np

from .. import lib

RULE = ('one evaluation = one batch of calls of one property function (all variants, both modules) over temperatures and array layouts; '
        'distinct = (property, variant, module, layout, mode)')
ASSUMPTIONS = ['reference values: IAPWS/VDI tables at 1 bar with the known deviation of the polynomial fits allowed for',
               'interpreted and compiled functions are called']

TW = np.arange(0.0, 101.0, 10.0)
TA = np.array([-20.0, 0.0, 20.0, 40.0, 60.0, 80.0, 100.0])
# property: (variants returning, variants writing, temperatures, reference values, allowed relative deviation in percent, trend)
PROP = dict(
    rho=('rho_water', 'get_rho_water', TW, [999.84, 999.70, 998.21, 995.65, 992.22, 988.04, 983.20, 977.76, 971.79, 965.31, 958.35],
         [.03] * 11, (-1, 5.0, 100.0)),
    cp=('cp_water', 'get_cp_water', TW, [4219.4, 4195.5, 4184.1, 4180.1, 4179.6, 4181.5, 4185.1, 4190.2, 4196.9, 4205.2, 4215.7],
        [.2] * 11, (1, 36.0, 100.0)),
    lam=('lambda_water', 'get_lambda_water', TW, [.5556, .5787, .5980, .6144, .6286, .6406, .6510, .6596, .6668, .6728, .6775],
         [3.0, 2.0, 1.2, 1, .8, .8, .8, .8, .8, .8, .8], (1, 0.0, 100.0)),
    ny=('ny_water', 'get_ny_water', TW, [1.792e-6, 1.3065e-6, 1.0034e-6, .8007e-6, .6581e-6, .5536e-6, .4740e-6, .4127e-6, .3643e-6, .3255e-6,
                                         .2938e-6], [1.5, 1, 1, 1.3, 1, 1.5, 2.2, 1.5, 2, 3.2, 5], (-1, 0.0, 96.0)),
    Pr=('Pr_water_return', 'get_Pr_water', TW, [13.5, 9.45, 7.01, 5.43, 4.34, 3.57, 3.0, 2.56, 2.22, 1.96, 1.75],
        [8, 1.5, 2.5, 1.5, 3.6, 4.8, 3.5, 2.2, 5.6, 3, 15], (-1, 0.0, 100.0)),
    beta=('beta_water_return', 'get_beta_water', TW, [-.068e-3, .088e-3, .2067e-3, .3033e-3, .3853e-3, .4576e-3, .5231e-3, .5837e-3, .6411e-3,
                                                      .6966e-3, .7507e-3], [16, 6, 2, 1.3, 1.5, 1.2, 1, 1.2, 1.3, 1, 1.6], (1, 0.0, 100.0)),
    lam_air=('lam_dryair_return', 'get_lam_dryair', TA, [.02255, .02436, .02587, .02735, .02880, .03024, .03165],
             [1.6, .4, .4, .4, .4, .5, .6], (1, -20.0, 100.0)),
    ny_air=('ny_dryair_return', 'get_ny_dryair', TA, [117.8e-7, 135.2e-7, 153.5e-7, 172.6e-7, 192.5e-7, 213.3e-7, 234.9e-7],
            [.6] * 7, (1, -20.0, 100.0)),
    rho_air=(None, 'get_rho_dryair', TA, [1.3765, 1.2758, 1.1885, 1.1124, 1.0455, .9862, .9333], [.4, .4, .4, .4, .5, 1.1, 2.4],
             (-1, -20.0, 100.0)),
    psat=('humid_air_saturation_pressure', None, np.array([0.0, 20.0, 40.0, 60.0, 80.0, 100.0]), [611.2, 2339, 7384, 19946, 47414, 101418],
          [2.5, .5, .5, .5, .5, .5], (1, 0.0, 100.0)),
    xsat=('humid_air_sat_water_mass', None, np.arange(0.0, 71.0, 10.0), [.0038249, .0077331, .014896, .027588, .049590, .087650, .154976, .282085],
          [1.5, 1, 1, .6, .6, .8, .8, .8], (1, 0.0, 70.0)),
)


def gen(tier, seed):
    n = 3 if tier == 'quick' else 40
    out = []
    for mode in ('py', 'jit'):
        for p in PROP:
            for i in range(n if mode == 'py' else max(1, n // 3)):
                out.append(dict(prop=p, seed='c22_%d_%s_%d' % (seed, p, i), mode=mode, grp='c22' + p, w=1, timeout=300))
        out.append(dict(prop='dimless', seed='c22_%d_d' % seed, mode=mode, grp='c22', w=1, timeout=300))
        out.append(dict(prop='bundle', seed='c22_%d_b' % seed, mode=mode, grp='c22', w=1, timeout=300))
    return out


def spline(x, y, q):
    from scipy.interpolate import CubicSpline
    y = np.asarray(y, dtype=float)
    if (y > 0).all():
        return np.exp(CubicSpline(x, np.log(y))(q))
    return CubicSpline(x, y)(q)


def layouts(r, lo, hi):
    g = np.random.default_rng(r.randint(0, 2 ** 31))
    yield 'dense', np.arange(lo, hi + 1e-9, 0.01)
    yield 'random', g.uniform(lo, hi, r.randint(1, 200))
    yield 'one', g.uniform(lo, hi, 1)
    yield 'matrix', g.uniform(lo, hi, (r.randint(2, 9), r.randint(2, 9)))
    yield 'cube', g.uniform(lo, hi, (2, 3, r.randint(2, 5)))
    yield 'strided', g.uniform(lo, hi, 60)[::3]
    yield 'reversed', g.uniform(lo, hi, 30)[::-1]
    yield 'column', g.uniform(lo, hi, (12, 4))[:, 1]
    yield 'empty', np.zeros(0)


def run(c):
    from .. import scen
    v, r = lib.V(), lib.rng(c['seed'])
    mods = [('precomp_funs', scen.ms.pf), ('matprops', scen.ms.matprops)]
    if c['prop'] == 'dimless':
        return dimless(c, v, r, scen)
    if c['prop'] == 'bundle':
        return bundle(c, v, r, scen)
    ret, wrt, tt, ref, pct, (sgn, a, b) = PROP[c['prop']]
    lo, hi = float(tt[0]), float(tt[-1])
    n, keys = 0, set()
    for lay, T in layouts(r, lo, hi):
        if c['mode'] == 'jit' and lay not in ('dense', 'matrix', 'strided'):
            continue
        T0 = T.copy()
        base = None
        for mn, m in mods:
            for kind, fn in (('return', ret), ('write', wrt)):
                if fn is None:
                    continue
                f = getattr(m, fn)
                if kind == 'return':
                    y = f(T)
                else:
                    big = np.full(T.shape[:-1] + (T.shape[-1] + 2,), -777.0)
                    y = big[..., 1:-1]
                    if c['mode'] == 'jit' and T.ndim > 2:
                        y = np.full(T.shape, -777.0)
                    q = f(T, y)
                    v.chk(q is None, fn, lambda: '%s returned %r' % (fn, type(q)))
                    if y.base is big:
                        v.chk((big[..., 0] == -777.0).all() and (big[..., -1] == -777.0).all(), fn + ' bounds', '%s wrote outside its output' % fn)
                y = np.asarray(y, dtype=float)
                ctx = '%s.%s (%s, %s)' % (mn, fn, lay, c['mode'])
                v.chk(np.array_equal(T, T0), fn + ' input', lambda: '%s changed its input' % ctx)
                if not v.chk(y.shape == T.shape, fn + ' shape', lambda: '%s returned shape %s for %s' % (ctx, y.shape, T.shape)):
                    continue
                v.chk(np.isfinite(y).all(), fn + ' finite', lambda: '%s is not finite' % ctx)
                if c['prop'] != 'beta':
                    v.chk((y > 0).all(), fn + ' sign', lambda: '%s is not positive at %.6g °C' % (ctx, T[y <= 0].flat[0]))
                if base is None:
                    base = y
                elif y.size:
                    d = np.abs(y - base) / np.maximum(np.abs(base), np.abs(base).max() * 1e-3)
                    v.chk(d.max() <= 1e-11, fn + ' variants', lambda: '%s differs from the other variants by %.3g at %.6g °C' % (ctx, d.max(), T.flat[int(d.argmax())]))
                n += y.size
                keys.add('%s %s %s %s %s' % (c['prop'], kind, mn, lay, c['mode']))
                if y.size:
                    w = spline(tt, ref, T)
                    tol = np.interp(T, tt, np.array(pct)) / 100 * np.maximum(np.abs(w), np.abs(w).max() * 0.05 if c['prop'] == 'beta' else 0)
                    e = np.abs(y - w) - tol
                    if c['prop'] in ('ny', 'Pr', 'psat', 'beta'):
                        e -= 0.006 * np.abs(w)     # interpolation between the table values
                    v.chk((e <= 0).all(), fn + ' reference', lambda: '%s is %.9g at %.6g °C, tables give %.9g'
                          % (ctx, y.flat[int(e.argmax())], T.flat[int(e.argmax())], w.flat[int(e.argmax())]))
                if lay == 'dense':
                    k = (T >= a) & (T <= b)
                    dy = sgn * np.diff(y[k])
                    v.chk((dy > 0).all(), fn + ' trend', lambda: '%s is not %s around %.6g °C' % (ctx, 'rising' if sgn > 0 else 'falling', T[k][int(dy.argmin())]))
                    j = np.abs(np.diff(y)).max()
                    v.chk(j <= 0.002 * np.abs(y).max(), fn + ' jump', lambda: '%s jumps by %.6g' % (ctx, j))
        # scalars
        if ret is not None and T.size:
            for mn, m in mods:
                for x in (T.flat[0], float(T.flat[-1]), int(min(hi, max(lo, 37)))):
                    y = getattr(m, ret)(x)
                    w = np.asarray(getattr(m, ret)(np.array([float(x)])))[0]
                    n += 1
                    v.chk(np.ndim(y) == 0 and abs(y - w) <= 1e-12 * abs(w), ret + ' scalar', lambda: '%s.%s(%r) is %r as a scalar and %r in an array' % (mn, ret, x, y, w))
    return dict(viol=v, keys=sorted(keys), stats=dict(calls_values=n), sample=dict(c, values=n))


def dimless(c, v, r, scen):
    n, keys = 0, set()
    g = np.random.default_rng(r.randint(0, 2 ** 31))
    mods = [('precomp_funs', scen.ms.pf), ('dimless', scen.ms.dimless_no if hasattr(scen.ms, 'dimless_no') else scen.ms.pf)]
    for mn, m in mods:
        for i in range(60):
            k = r.randint(1, 12)
            vel, L, ny = g.uniform(-2, 2, k), r.uniform(0.005, 0.3), g.uniform(2.5e-7, 1.8e-6, k)
            want = np.abs(vel) * L / ny
            bk = vel.copy(), ny.copy()
            out = np.full(k, -1.0)
            m.get_Re_water(vel, L, ny, out)
            y = m.Re_water_return(vel, L, ny)
            n += 2 * k
            v.chk(np.allclose(out, want, rtol=1e-12, atol=0) and np.allclose(y, want, rtol=1e-12, atol=0), 'Reynolds',
                  lambda: '%s: Reynolds numbers %s / %s instead of %s' % (mn, out[:3], y[:3], want[:3]))
            v.chk(np.array_equal(bk[0], vel) and np.array_equal(bk[1], ny), 'Reynolds input', 'Reynolds number functions changed their input')
            Ts, Ta, fl = g.uniform(-10, 100, k), r.uniform(-20, 45), r.uniform(0.01, 3)
            nya = g.uniform(1.1e-5, 2.4e-5, k)
            ra = m.rayleigh_number(Ts, Ta, 0.708, nya, 273.15, fl)
            w = np.abs(Ts - Ta) * 9.81 * fl ** 3 * 0.708 / ((Ta + 273.15) * nya ** 2)
            rk = m.rayleigh_number(Ts + 273.15, Ta + 273.15, 0.708, nya, 0.0, fl)
            n += 2 * k
            v.chk(np.allclose(ra, w, rtol=1e-12, atol=0) and np.allclose(rk, w, rtol=1e-9, atol=1e-9 * w.max()), 'Rayleigh',
                  lambda: '%s: Rayleigh numbers %s / %s (kelvin) instead of %s' % (mn, ra[:3], rk[:3], w[:3]))
        keys.add('dimless %s %s' % (mn, c['mode']))
    return dict(viol=v, keys=sorted(keys), stats=dict(calls_values=n), sample=dict(c, values=n))


def bundle(c, v, r, scen):
    """bundled property functions used by the parts equal the single ones"""
    n = 0
    pf, mp = scen.ms.pf, scen.ms.matprops
    g = np.random.default_rng(r.randint(0, 2 ** 31))
    for i in range(40):
        k = r.randint(3, 20)
        T = g.uniform(1, 99, k)
        T0 = T.copy()
        o = [np.full(k, -1.0)] + [np.full(k - 2, -1.0) for _ in range(3)]
        pf.water_mat_props_ext_view(T, *o)
        o2 = pf.water_mat_props_ext(T)
        o3 = [np.full(k, -1.0) for _ in range(4)]
        pf.water_mat_props(T, *o3)
        w = [mp.cp_water(T), mp.lambda_water(T), mp.rho_water(T), mp.ny_water(T)]
        for nm, a, b, d, x in zip(('heat capacity', 'conductivity', 'density', 'viscosity'), o, o2, o3, w):
            xi = x if nm == 'heat capacity' else x[1:-1]
            n += a.size + np.size(b) + d.size
            v.chk(np.allclose(a, xi, rtol=1e-12, atol=0) and np.allclose(b, xi, rtol=1e-12, atol=0) and np.allclose(d, x, rtol=1e-12, atol=0), 'bundle',
                  lambda: '%s of the bundled functions: %s / %s / %s instead of %s' % (nm, a[:3], b[:3], d[:3], x[:3]))
        v.chk(np.array_equal(T, T0), 'bundle input', 'bundled functions changed their input')
    return dict(viol=v, keys=['bundle %s' % c['mode']], stats=dict(calls_values=n), sample=dict(c, values=n))
