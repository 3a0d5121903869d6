"""C16: meters."""
import numpy as np
import pandas as pd

from .. import lib, nets

RULE = ('one evaluation = one simulation on which temperature, mass flow, volume flow and heat meters were set up and compared value by '
        'value with the raw records of the same run (kept in memory) and with independently accumulated integrals; distinct = (network, '
        'saving, resampling, flow directions seen, metered part types)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'the flow recorded at a time is the flow of the step which ends there (C02)',
               'flow meters on parts which record one mass flow per part or per cell; temperature meters on all parts']

FLOW = ('Pipe', 'PipeWithPump', 'HeatedPipe', 'PipeBranched', 'Tes', 'PipeWith3wValve')


def gen(tier, seed):
    n = 72 if tier == 'quick' else 900
    fams = ['chain', 'branched', 'tes', 'valve', 'conn3', 'loop', 'mixloop', 'heated', 'rnet', 'hexi', 'hexu', 'chain']
    out = []
    for i in range(n):
        r = lib.rng('c16', seed, i)
        f = fams[i % len(fams)]
        out.append(dict(fam=f, seed='c16_%d_%d' % (seed, i), tf=r.choice([5.0, 20.0, 60.0, 150.0]) if 'hex' not in f else 8.0,
                        save=['mem', 'disk', 'chunk', 'resample'][(i // len(fams) + i) % 4], w=1,
                        tfkw=dict(max_stepsize=r.choice([100.0, 2.0])), ut=i % 3 == 2))
    return out


def means(t, x, f, t0):
    """bin means on a regular grid anchored at midnight, empty bins interpolated"""
    b = np.floor((t + t0) / f + 1e-9).astype(int)
    lo = b.min()
    n = b.max() - lo + 1
    s, c = np.zeros(n), np.zeros(n)
    for k, y in zip(b, x):
        s[k - lo] += y
        c[k - lo] += 1
    m = c > 0
    return np.interp(np.arange(n), np.arange(n)[m], s[m] / c[m]), (np.arange(n) + lo) * f - t0


def run(c):
    from .. import ref, scen
    v, r = lib.V(), lib.rng(c['seed'])
    s = lib.fam_spec(c)
    if r.random() < 0.5:
        for q in s['bcs']:
            if r.random() < 0.5 and q.get('const', True):
                m = int(c['tf']) + 3
                q.update(const=False, T=nets.ts([round(r.uniform(15, 80), 2) for _ in range(m)], 1.0))
    freq = None
    tr = scen.trace(scen.run(s))
    if c['save'] == 'mem':
        e = scen.run(s)
    else:
        kw = {}
        if c['save'] == 'chunk':
            kw['save_every_n_steps'] = r.choice([7, 13, 50])
        if c['save'] == 'resample':
            freq = r.choice([1.0, 2.0, 0.5, 5.0])
            kw.update(resample_final=True, resample_freq='%dms' % int(freq * 1000))
        s2 = dict(s, disk=lib.disk(**kw)[0])
        e = scen.run(s2)
    t = tr['t']
    K = len(t)
    start = pd.Timestamp(r.choice(['2019-09-01 00:00:00', '2020-02-29 13:37:02', '2021-12-31 23:59:50']))
    t0 = (start - start.normalize()).total_seconds()
    # the class of the package and its deprecated twin
    cls = scen.ms.ut.Meters if c.get('ut') else scen.ms.Meters
    M = cls(e, start_time=start)
    h = np.concatenate([[0.0], np.diff(t)])
    typ = {p['n']: p['t'] for p in s['parts']}
    flows = [p for p in typ if typ[p] in FLOW]
    temps = [p for p in typ if tr[p]['res'].ndim >= 2]
    nv = 0
    seen = set()
    neg = set()

    def cmp(nm, df, want, cum):
        nonlocal nv
        df = df if isinstance(df, pd.DataFrame) else df.to_frame()
        if not v.chk(set(df.columns) == set(want), nm + ' columns', lambda: '%s: columns %s' % (nm, list(df.columns))):
            return
        for col, x in want.items():
            y = df[col].to_numpy(dtype=float)
            if freq:
                x, g = means(t, x, freq, t0)
            else:
                g = t
            if not v.chk(len(y) == len(x), nm + ' rows', lambda: '%s %s: %d rows for %d times' % (nm, col, len(y), len(x))):
                return
            idx = (df.index - start).total_seconds().to_numpy()
            v.chk(np.abs(idx - g).max() < 2e-6, nm + ' times', lambda: '%s: times differ by up to %.3g s' % (nm, np.abs(idx - g).max()))
            tol = 1e-9 * (1 + np.abs(x)) if col not in cum else 3e-6 * np.abs(x).max() + 1e-12
            if col in ('heatflow_kW', 'volume_flow_m3ps') or nm == 'volumeflow':
                tol = 2e-6 * np.abs(x) + 1e-12
            d = np.abs(x - y)
            nv += len(x)
            if not (d <= tol).all():
                j = int(np.argmax(d - tol))
                v.add(nm, '%s %s of %s (%s): %.12g reported at %.6g s, %.12g expected' % (nm, col, where, c['save'], y[j], g[j], x[j]))

    CUM = ('flown_mass_kg', 'flown_volume_m3', 'flown_heat_MJ', 'flown_heat_kWh', 'flown_mass_pos_kg', 'flown_volume_pos_m3',
           'flown_heat_pos_MJ', 'flown_heat_pos_kWh')

    def T(p, i):
        return tr[p]['res'].reshape(K, -1)[:, i]

    def dm(p, i):
        x = tr[p]['res_dm']
        return x[:, 0] if typ[p] in ('Pipe', 'PipeWithPump', 'HeatedPipe') else x[:, i]
    for j in range(4):
        p = r.choice(temps)
        n = int(np.prod(tr[p]['res'].shape[1:]))
        i = r.choice([0, n - 1, r.randrange(n), -1])
        where = 'cell %d of %s %s' % (i, typ[p], p)
        nm = 't%d' % j
        M.temperature(name=nm, part=p, cell=i)
        cmp('temperature', M.meters['temperature'][nm], {'T_' + nm: T(p, i)}, ())
        seen.add(typ[p])
    for j in range(3):
        if not flows:
            break
        p = r.choice(flows)
        n = tr[p]['res'].shape[1]
        i = r.choice([0, n - 1, r.randrange(n)])
        where = 'cell %d of %s %s' % (i, typ[p], p)
        M.massflow(name='m%d' % j, part=p, cell=i)
        cmp('massflow', M.meters['massflow']['m%d' % j], {'m%d' % j: dm(p, i)}, ())
        M.volumeflow(name='v%d' % j, part=p, cell=i)
        cmp('volumeflow', M.meters['volumeflow']['v%d' % j], {'v%d' % j: dm(p, i) / ref.rho_w(T(p, i))}, ())
        seen.add(typ[p])
        neg.add(int(np.sign(dm(p, i)).min()))
        a = r.choice(flows)
        na = tr[a]['res'].shape[1]
        k = r.choice([0, na - 1, r.randrange(na)])
        hot = r.random() < 0.4
        full = r.random() < 0.5
        where = 'cell %d of %s %s and cell %d of %s %s, flow of the %s part' % (k, typ[a], a, i, typ[p], p, 'warm' if hot else 'cold')
        M.heat_meter(name='h%d' % j, warm_part=a, warm_cell=k, cold_part=p, cold_cell=i, massflow_from_hot_part=hot,
                     full_output=full)
        f = dm(a, k) if hot else dm(p, i)
        W, C = T(a, k), T(p, i)
        vol = f / ref.rho_w(C)
        q = f * (W - C) * (ref.cp_w(W) + ref.cp_w(C)) / 2 / 1e3
        want = dict(T_ff=W, T_rf=C, T_diff=W - C, massflow_kgps=f, volume_flow_m3ps=vol, heatflow_kW=q,
                    flown_mass_kg=np.cumsum(f * h), flown_volume_m3=np.cumsum(vol * h), flown_heat_MJ=np.cumsum(q * h) / 1e3,
                    flown_heat_kWh=np.cumsum(q * h) / 3600)
        if full:
            z = np.maximum
            want.update(flown_mass_pos_kg=np.cumsum(z(f, 0) * h), flown_volume_pos_m3=np.cumsum(z(vol, 0) * h),
                        flown_heat_pos_MJ=np.cumsum(z(q, 0) * h) / 1e3, flown_heat_pos_kWh=np.cumsum(z(q, 0) * h) / 3600)
        cmp('heat_meter', M.meters['heat_meter']['h%d' % j], want, CUM)
    # the common table holds the same series
    D = M.get_sensors_df()
    cnt = 0
    for kind, ds in M.get_sensors_dict().items():
        for nm, df in ds.items():
            for col in df.columns:
                cnt += 1
                x = D[(kind, nm, col)].to_numpy(dtype=float)
                v.chk(lib.same(x, df[col].to_numpy(dtype=float)), 'table', lambda: 'column %s of the common table differs' % ((kind, nm, col),))
    v.chk(cnt == D.shape[1], 'table', lambda: '%d series in a table with %d columns' % (cnt, D.shape[1]))
    # metering changes no record
    d = lib.diff_traces(tr, scen.trace(e)) if not freq else None
    v.chk(d is None, 'records', lambda: 'records of the metered run (%s): %s' % (c['save'], d))
    # faulty meters are refused
    for kw in (dict(part=temps[0], cell=10 ** 6), dict(part='nosuch', cell=0), dict(part=temps[0], cell=0.5)):
        try:
            M.temperature(name='bad', **kw)
        except Exception:
            continue
        v.add('refuse', 'a meter at %s was accepted' % kw)
    if flows:
        try:
            M.massflow(name='m0', part=flows[0], cell=0)
            v.add('refuse', 'a second mass flow meter called m0 was accepted')
        except AssertionError:
            pass
    return dict(viol=v, keys=['%s %s %s %s %s' % (c['fam'], c['save'], freq, sorted(neg), '+'.join(sorted(seen)))],
                stats=dict(values=nv, series=cnt, steps=K - 1, reverse_flow_meters=int(-1 in neg)), sample=dict(c, series=cnt, values=nv))


def finish(results, by_id, stats):
    if len(results) > 60 and stats.get('reverse_flow_meters', 0) < 2:
        return [dict(key='reach', msg='hardly any metered flow was reversed: %s' % stats)]
    return []
