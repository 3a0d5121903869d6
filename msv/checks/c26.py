"""C26: statistical error measures."""
import numpy as np

from .. import lib

RULE = ('one evaluation = one batch of randomised series on which every error measure is compared with its definition; distinct = '
        '(module, measure, container/shape, length class, content)')
ASSUMPTIONS = ['both public copies of the measures (stat_err_meas and ut) are called',
               'scope: arrays with one or two dimensions (one observation with several predictions, or equal shapes), Series with equal index and '
               'DataFrames of equal shape and labels; normalisations for one observed series; no NaN']

CONT = ['arr', 'series', 'mixed', 'arr1-2', 'arr2-2', 'arr2-1', 'frame', 'dates']


def gen(tier, seed):
    n = 3 if tier == 'quick' else 60
    return [dict(mod=m, cont=k, seed='c26_%d_%s_%s_%d' % (seed, m, k, i), mode='py', grp='c26', w=1, timeout=120, n=40)
            for m in ('stat', 'ut') for k in CONT for i in range(n)]


def roll_mean(x, w, mp):
    """Centred rolling mean of the columns of x."""
    x = x.reshape(len(x), -1)
    out = np.full(x.shape, np.nan)
    off = (w - 1) // 2
    for i in range(len(x)):
        a, b = max(0, i + off + 1 - w), min(len(x), i + off + 1)
        if b - a >= mp and b > a:
            out[i] = [sum(float(q) for q in x[a:b, j]) / (b - a) for j in range(x.shape[1])]
    return out


def run(c):
    import pandas as pd
    from .. import scen
    m = scen.ms.stat_err_meas if c['mod'] == 'stat' else scen.ms.ut
    v, r = lib.V(), lib.rng(c['seed'])
    g = np.random.default_rng(r.randint(0, 2 ** 31))
    n, keys = 0, set()

    def chk(nm, y, w, ctx, rt=1e-9):
        nonlocal n
        try:
            y = np.asarray(y, dtype=float)
        except Exception as e:
            v.add(nm + ' type', '%s (%s): result is not numeric: %r' % (nm, ctx, e))
            return
        w = np.asarray(w, dtype=float)
        if y.size == w.size:
            y = y.reshape(w.shape)
        n += w.size
        sc = np.abs(w) + sca
        ok = y.shape == w.shape and bool(np.all((np.isnan(y) == np.isnan(w)) & (np.isnan(w) | (np.abs(y - w) <= rt * sc))))
        v.chk(ok, nm, lambda: '%s (%s): %s, definition gives %s' % (nm, ctx, y.ravel()[:4], w.ravel()[:4]))
        keys.add('%s %s %s' % (c['mod'], nm, ctx))
    for _ in range(c['n']):
        N = r.choice([2, 3, 5, 17, 60])
        content = r.choice(['rand', 'rand', 'perfect', 'offset', 'negative', 'large'])
        k = r.choice([1, 2, 3, N])
        y = g.normal(50, 12, (N, k))
        if content == 'negative':
            y = -y
        if content == 'large':
            y = y * 1e6
        e = g.normal(r.choice([0, 3]), 5, (N, k)) * (1e6 if content == 'large' else 1)
        h = y.copy() if content == 'perfect' else y + 4.5 if content == 'offset' else y + e
        ct = c['cont']
        if ct in ('arr', 'series', 'mixed', 'dates'):
            Y, H = y[:, 0].copy(), h[:, 0].copy()
        elif ct == 'arr1-2':
            if content == 'perfect':
                h = np.repeat(y[:, :1], k, axis=1)
            Y, H = y[:, 0].copy(), h.copy()
        elif ct == 'arr2-1':
            Y, H = y[:, :1].copy(), h[:, 0].copy()
        else:
            Y, H = y.copy(), h.copy()
        ref_y = Y if Y.ndim == 2 or H.ndim == 1 else Y[:, None]
        ref_h = H if H.ndim == 2 or Y.ndim == 1 else H[:, None]
        d = ref_h - ref_y
        sca = 1e-6 * (1e6 if content == 'large' else 1)
        if ct == 'series':
            Y, H = pd.Series(Y), pd.Series(H)
        elif ct == 'mixed':
            Y = pd.Series(Y)
        elif ct == 'dates':
            ix = pd.date_range('2020-01-01', periods=N, freq='90s')
            Y, H = pd.Series(Y, index=ix), pd.Series(H, index=ix)
        elif ct == 'frame':
            Y, H = pd.DataFrame(Y), pd.DataFrame(H)
        Yc, Hc = Y.copy(), H.copy()
        ctx = '%s, %s, %d columns' % (ct, content, ref_h.shape[1] if ref_h.ndim == 2 else 1)

        def tot(a):
            return np.array([sum(float(q) for q in a[:, j]) for j in range(a.shape[1])]) if a.ndim == 2 else sum(float(q) for q in a)
        mse, mae, msd = tot(d ** 2) / N, tot(np.abs(d)) / N, tot(d) / N
        sst = tot((ref_y - tot(ref_y) / N) ** 2)
        r2 = 1 - tot(d ** 2) / sst
        chk('MSE', m.mean_squared_err(Y, H), mse, ctx)
        chk('MAE', m.mean_abs_err(Y, H), mae, ctx)
        chk('MSD', m.mean_signed_deviation(Y, H), msd, ctx)
        chk('RMSE', m.rmse(Y, H), np.sqrt(mse), ctx)
        chk('R2', m.r_squared(Y, H), r2, ctx)
        one = Yc.ndim == 1
        if one:
            mean, med = float(np.sum(y[:, 0]) / N), float(np.median(y[:, 0]))
            s = np.sort(y[:, 0])
            q = [float(s[int(np.floor(p * (N - 1)))] + (p * (N - 1) % 1) * (s[min(N - 1, int(np.floor(p * (N - 1))) + 1)] - s[int(np.floor(p * (N - 1)))]))
                 for p in (0.25, 0.75)]
            den = dict(mean=mean, median=med, IQR=q[1] - q[0], range=s[-1] - s[0])
            chk('CV(RMSE)', m.cv_rmse(Y, H), np.sqrt(mse) / mean, ctx)
            for em, val in (('MSE', mse), ('RMSE', np.sqrt(mse)), ('MSD', msd), ('MAE', mae)):
                for nm, dn in den.items():
                    chk('%s/%s' % (em, nm), m.normalized_err(Y, H, err_method=em, norm=nm), val / dn, ctx, 1e-8)
            chk('MSE/IQR default', m.normalized_err(Y, H), mse / den['IQR'], ctx, 1e-8)
        p = r.choice([1, 2, 3])
        if N > p + 1:
            adj = 1 - (1 - r2) * (N - 1) / (N - p - 1)
            chk('R2adj', m.r_squared_adj(p, y=Y, y_hat=H), adj, ctx)
            a = r2 if np.ndim(r2) == 0 else np.array(r2)
            chk('R2adj given', m.r_squared_adj(p, r_sqrd=a, n=N), adj, ctx)
        w = r.choice([1, 2, 3, 4, 7])
        mp = r.choice([None, 1, 2])
        mp = mp if mp is None or mp <= w else 1
        if w <= N:
            ctr = ctx + ', window %d' % w
            f = mp if mp is not None else w
            chk('MSE rolling', m.mean_squared_err(Y, H, roll=True, window=w, min_periods=mp), roll_mean(d ** 2, w, f), ctr, 1e-7)
            chk('MAE rolling', m.mean_abs_err(Y, H, roll=True, window=w, min_periods=mp), roll_mean(np.abs(d), w, f), ctr, 1e-7)
            chk('MSD rolling', m.mean_signed_deviation(Y, H, roll=True, window=w, min_periods=mp), roll_mean(d, w, f), ctr, 1e-7)
            if content not in ('perfect', 'large'):
                rm = np.sqrt(roll_mean(d ** 2, w, f))
                chk('RMSE rolling', m.rmse(Y, H, roll=True, window=w, min_periods=mp), rm, ctr, 1e-5)
                if one:
                    chk('CV(RMSE) rolling', m.cv_rmse(Y, H, roll=True, window=w, min_periods=mp), rm / mean, ctr, 1e-5)
        if content == 'perfect':
            for nm in ('mean_squared_err', 'mean_abs_err', 'mean_signed_deviation', 'rmse'):
                v.chk(not np.any(np.asarray(getattr(m, nm)(Y, H))), nm + ' perfect', '%s of a perfect prediction is not zero (%s)' % (nm, ctx))
            v.chk(bool(np.all(np.asarray(m.r_squared(Y, H)) == 1)), 'R2 perfect', 'R² of a perfect prediction is not one (%s)' % ctx)
        same = (Y.equals(Yc) if hasattr(Y, 'equals') else np.array_equal(Y, Yc)) and (H.equals(Hc) if hasattr(H, 'equals') else np.array_equal(H, Hc))
        v.chk(bool(same) and type(Y) is type(Yc), 'input', 'error measures changed their input (%s)' % ctx)
        # NaN in the observations must not give a coefficient of determination silently
        if N > 3 and ct != 'frame':
            B = Y.copy()
            if ct in ('arr', 'arr1-2', 'arr2-2', 'arr2-1'):
                B[(r.randrange(N),) + ((0,) if B.ndim == 2 else ())] = np.nan
            else:
                B.iloc[r.randrange(N)] = np.nan
            try:
                z = m.r_squared(B, H)
                v.chk(bool(np.isnan(np.asarray(z, dtype=float)).any()), 'R2 nan', 'R² of observations with NaN is %s (%s)' % (z, ctx))
            except (AssertionError, ValueError):
                pass
            n += 1
    return dict(viol=v, keys=sorted(keys), stats=dict(values=n), sample=dict(c, values=n))
